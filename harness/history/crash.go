//go:build go1.25

package history

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/zverif/drive"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

// tree is the content of a directory: relative path to content; directories end in /.
type tree map[string]string

func readTree(dir string) tree {
	out := tree{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			out[rel+"/"] = ""
			return nil
		}
		raw, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out[rel] = string(raw)
		return nil
	})
	if err != nil {
		panic(err)
	}
	return out
}

func (a tree) copy() tree {
	b := tree{}
	for k, v := range a {
		b[k] = v
	}
	return b
}

func (a tree) equal(b tree) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func (a tree) write(dir string) {
	for _, k := range pbt.SortedKeys(a) {
		p := filepath.Join(dir, k)
		if strings.HasSuffix(k, "/") {
			if err := os.MkdirAll(p, 0750); err != nil {
				panic(err)
			}
			continue
		}
		if err := os.MkdirAll(filepath.Dir(p), 0750); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(a[k]), 0640); err != nil {
			panic(err)
		}
	}
}

// watch records file operations below a directory.
type watch struct {
	fd   int
	dir  string
	dirs map[int32]string
	late bool // a directory was made meanwhile; its first operations are unknown
}

type op struct {
	mask   uint32
	cookie uint32
	path   string
}

const mask = syscall.IN_CREATE | syscall.IN_MODIFY | syscall.IN_DELETE | syscall.IN_MOVED_FROM | syscall.IN_MOVED_TO

func newWatch(dir string) *watch {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		panic(err)
	}
	w := &watch{fd: fd, dir: dir, dirs: map[int32]string{}}
	for k := range readTree(dir) {
		if strings.HasSuffix(k, "/") {
			w.add(strings.TrimSuffix(k, "/"))
		}
	}
	return w
}

func (w *watch) add(rel string) {
	wd, err := syscall.InotifyAddWatch(w.fd, filepath.Join(w.dir, rel), mask)
	if err != nil {
		panic(err)
	}
	w.dirs[int32(wd)] = rel
}

func (w *watch) drain() []op {
	var out []op
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, buf)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			return out
		}
		for b := buf[:n]; len(b) >= 16; {
			wd := int32(binary.NativeEndian.Uint32(b))
			m := binary.NativeEndian.Uint32(b[4:])
			c := binary.NativeEndian.Uint32(b[8:])
			l := int(binary.NativeEndian.Uint32(b[12:]))
			name := string(bytes.TrimRight(b[16:16+l], "\x00"))
			b = b[16+l:]
			if m&syscall.IN_Q_OVERFLOW != 0 {
				w.late = true
				continue
			}
			if name == "" {
				continue
			}
			p := filepath.Join(w.dirs[wd], name)
			if m&syscall.IN_ISDIR != 0 {
				if m&(syscall.IN_CREATE|syscall.IN_MOVED_TO) != 0 {
					w.late = true
					w.add(p)
				}
				continue
			}
			out = append(out, op{m, c, p})
		}
	}
}

func (w *watch) close() { syscall.Close(w.fd) }

// crashTrees lists the states the directory went through between two known
// states: after each operation, and inside each write.
type crashTrees struct {
	states []tree
	// partial[i] is the path written by the operation that led to states[i], "" if none
	partial []string
	old     []string // its content before
}

func crashes(before, after tree, ops []op) *crashTrees {
	// final content of each inode
	type inode struct {
		final string
		known bool
	}
	cur := map[string]*inode{}
	var all []*inode
	for p := range before {
		cur[p] = &inode{}
	}
	moved := map[uint32]*inode{}
	trace := make([]*inode, len(ops))
	paths := map[*inode]string{}
	for i, o := range ops {
		switch {
		case o.mask&syscall.IN_CREATE != 0:
			cur[o.path] = &inode{}
			all = append(all, cur[o.path])
			trace[i] = cur[o.path]
		case o.mask&syscall.IN_MODIFY != 0:
			if cur[o.path] == nil {
				return nil
			}
			trace[i] = cur[o.path]
		case o.mask&syscall.IN_MOVED_FROM != 0:
			if cur[o.path] == nil {
				return nil
			}
			trace[i] = cur[o.path]
			moved[o.cookie] = cur[o.path]
			delete(cur, o.path)
		case o.mask&syscall.IN_MOVED_TO != 0:
			if moved[o.cookie] == nil {
				return nil
			}
			cur[o.path] = moved[o.cookie]
			trace[i] = cur[o.path]
		case o.mask&syscall.IN_DELETE != 0:
			delete(cur, o.path)
		}
	}
	for p, n := range cur {
		if c, ok := after[p]; ok && n != nil {
			n.final, n.known = c, true
			paths[n] = p
		}
	}
	out := &crashTrees{}
	s := before.copy()
	hand := map[uint32]string{}
	for i, o := range ops {
		partial, old := "", ""
		switch {
		case o.mask&syscall.IN_CREATE != 0:
			s[o.path] = ""
		case o.mask&syscall.IN_MODIFY != 0:
			old = s[o.path]
			s[o.path] = trace[i].final // what was in a file that did not last is not needed
			partial = o.path
		case o.mask&syscall.IN_MOVED_FROM != 0:
			hand[o.cookie] = s[o.path]
			delete(s, o.path)
			// the following MOVED_TO is the same operation
			continue
		case o.mask&syscall.IN_MOVED_TO != 0:
			s[o.path] = hand[o.cookie]
		case o.mask&syscall.IN_DELETE != 0:
			delete(s, o.path)
		}
		out.states = append(out.states, s.copy())
		out.partial = append(out.partial, partial)
		out.old = append(out.old, old)
	}
	if len(out.states) == 0 || !out.states[len(out.states)-1].equal(after) {
		return nil
	}
	return out
}

// pick draws a state.
func (c *crashTrees) pick(t *pbt.T) (tree, string) {
	i := t.Intn(len(c.states))
	if t.Draw(4) == 3 { // the last operations, where the head changes
		i = max(0, len(c.states)-1-t.Intn(3))
	}
	s := c.states[i].copy()
	what := fmt.Sprintf("after file operation %d of %d", i+1, len(c.states))
	if p := c.partial[i]; p != "" && t.Draw(3) > 0 {
		full := s[p]
		if strings.HasPrefix(full, c.old[i]) && len(c.old[i]) > 0 {
			n := len(c.old[i]) + t.Intn(len(full)-len(c.old[i])+1)
			s[p] = full[:n]
		} else {
			s[p] = full[:t.Intn(len(full)+1)]
		}
		what += fmt.Sprintf(", %d of %d bytes of %s written", len(s[p]), len(full), p)
	} else if p != "" {
		what += ", which wrote " + p
	}
	return s, what
}

// restarts is the machine of C22.
type restarts struct {
	*H
	dir      string
	w        *watch
	restarts int
	inside   int // crashes inside a step
}

func (r *restarts) scratch() string { return filepath.Join(r.T.TempDir(), "save") }

// swap starts a node over a directory in place of the current one.
func (r *restarts) swap(dir string) {
	if r.w != nil {
		r.w.close()
	}
	r.dir = dir
	r.D = drive.New(r.T, r.S.P, true, &r.dir, &r.dir)
	r.w = newWatch(dir)
	r.restarts++
	r.F.Own = []string{"*"}
	r.Limbo = map[core.HashT]bool{}
	for _, id := range r.N.Pending() {
		r.Limbo[id] = true
	}
}

// afterStart drops what the node announces when it starts, and compares.
func (r *restarts) afterStart(what string) {
	for _, x := range r.D.Heads() {
		if x != r.N.Head.Id {
			r.differ("start", "%s the node announces head %s, the head is %s", what, short(x), short(r.N.Head.Id))
		}
	}
	r.D.Txs()
	r.N.Adopted, r.N.Accepted = nil, nil
	ts := r.D.Targets()
	if len(ts) > 0 {
		r.checkTarget(ts[len(ts)-1], what)
	}
	for _, tx := range r.N.W.TxOrder {
		if !r.D.Inv.HasTx(tx) {
			r.differ("lost", "%s the transaction %s is gone", what, short(tx))
		}
	}
	for id := range r.N.W.Merkles {
		if !r.D.Inv.HasMerkle(id) {
			r.differ("lost", "%s the merkle node %s is gone", what, short(id))
		}
	}
	for id := range r.N.W.Blocks {
		if !r.D.Inv.HasBlock(id) {
			r.differ("lost", "%s the block %s is gone", what, short(id))
		}
	}
	r.Compare(what)
}

// clean stops the node after a step and starts it again.
func (r *restarts) clean() {
	before := readTree(r.dir)
	r.w.drain()
	dir := r.dir
	r.T.Note("stop and start again")
	r.swap(dir)
	r.afterStart("after a restart")
	// a crash while starting: the operations of the start itself, watched from a second start
	if r.T.Draw(4) == 3 {
		d2 := r.scratch()
		before.write(d2)
		w := newWatch(d2)
		drive.New(r.T, r.S.P, true, &d2, &d2)
		c := crashes(before, readTree(d2), w.drain())
		w.close()
		if c != nil {
			s, what := c.pick(r.T)
			d3 := r.scratch()
			s.write(d3)
			r.T.Note("crash while starting, %s", what)
			r.swap(d3)
			r.inside++
			r.afterStart("after a crash while starting, " + what + ",")
		}
	}
}

// matches says how the node's ledger differs from a reference node's.
func (r *restarts) matches(n *model.Node) string {
	d := r.D
	if g := d.Height(); g != n.Head.Height {
		return fmt.Sprintf("the height is %d, should be %d", g, n.Head.Height)
	}
	if s := Diff(d.Utxos(Pkhs(), false), n.Utxos(Pkhs(), false), utxoStr); s != "" {
		return "unspent outputs: " + s
	}
	inc := map[core.HashT]core.HashT{}
	l := n.Ledger()
	for id, b := range l.Included {
		inc[id] = b.Id
	}
	return Diff(d.Included(r.S.TxOrder), inc, short)
}

// crash offers something and cuts the node off in the middle of handling it.
func (r *restarts) crash() {
	t := r.T
	before := *r.N
	before.W = r.N.W.Clone()
	was := r.Limbo
	r.Limbo = map[core.HashT]bool{}
	for k := range was {
		r.Limbo[k] = true
	}
	d0 := readTree(r.dir)
	r.w.drain()
	r.w.late = false
	var e bus.CandidateHeadEvent
	var tx core.Tx
	isTx := false
	if t.Draw(4) == 3 {
		tx, _, isTx = r.CandidateTx()
	}
	if isTx {
		r.Tx(tx, "")
		e.Txs = []core.Tx{tx}
	} else {
		b := r.Fork(r.forkPoint(), 3)
		e = r.Segment(b)
		if t.Draw(6) == 5 {
			r.perturb(&e)
		}
		r.Offer(e)
	}
	ops := r.w.drain()
	if r.w.late {
		t.Label("no crash: operations unknown")
		return
	}
	d1 := readTree(r.dir)
	if d0.equal(d1) && len(ops) == 0 {
		return
	}
	c := crashes(d0, d1, ops)
	if c == nil {
		t.Label("no crash: operations unknown")
		return
	}
	s, what := c.pick(t)
	dir := r.scratch()
	s.write(dir)
	t.Note("crash %s", what)
	after := r.N
	r.N = &before
	r.swap(dir)
	r.inside++
	// what of the event was stored
	for _, x := range e.Txs {
		if _, ok := after.W.Txs[model.Tid(x)]; ok && r.D.Inv.HasTx(model.Tid(x)) {
			before.W.PutTx(x)
		}
	}
	for _, x := range e.Merkles {
		if _, ok := after.W.Merkles[model.Mid(x)]; ok && r.D.Inv.HasMerkle(model.Mid(x)) {
			before.W.PutMerkle(x)
		}
	}
	for _, x := range e.Blocks {
		if _, ok := after.W.Blocks[model.Bid(x)]; ok && r.D.Inv.HasBlock(model.Bid(x)) {
			before.W.PutBlock(x)
		}
	}
	r.nTxs = min(r.nTxs, len(before.W.TxOrder))
	if m := r.matches(&before); m != "" {
		m2 := "the same"
		if after.Head != before.Head {
			m2 = r.matches(after)
			if m2 == "" {
				before.Head = after.Head
				t.Label("crash: head of after the step")
			}
		}
		if m2 != "" {
			r.differ("crash-state", "after a crash %s the node has neither the ledger of before the step (%s) nor that of after it (%s)", what, m, m2)
			r.settle()
		}
	} else {
		t.Label("crash: head of before the step")
	}
	r.Limbo = map[core.HashT]bool{}
	for _, id := range r.N.Pending() {
		r.Limbo[id] = true
	}
	r.afterStart("after a crash " + what)
	if t.Bool() { // the peer or the wallet tries again
		if isTx {
			r.Tx(tx, "again ")
		} else {
			r.Offer(e)
		}
	}
}

// retry offers a transaction that was pending before a restart.
func (r *restarts) retry() {
	var ls []core.HashT
	for id := range r.Limbo {
		ls = append(ls, id)
	}
	if len(ls) == 0 {
		return
	}
	sort.Slice(ls, func(i, j int) bool { return model.Less(ls[i], ls[j]) })
	r.Tx(r.N.W.Txs[ls[r.T.Intn(len(ls))]], "of before the restart ")
}

func runRestarts(t *pbt.T) {
	p := gen.Params(t)
	r := &restarts{}
	dir := filepath.Join(t.TempDir(), "save")
	d := drive.New(t, p, true, &dir, &dir)
	r.H = New(t, p, d, Focus{AvgTx: 2, W: []int{5, 5, 2, 4, 2, 5, 0, 1, 1}})
	r.dir = dir
	r.w = newWatch(dir)
	defer func() { r.w.close() }()
	r.Compare("start")
	for n := t.Intn(6); n > 0; n-- {
		if b := r.Extend(r.sOf(r.N.Head), r.F.AvgTx); b != nil {
			r.Offer(r.Segment(b))
		}
	}
	most := 0
	t.Steps(1, 8, 24, func(int) {
		switch t.Weighted(8, 2, 5, 2) {
		case 0:
			r.Step()
		case 1:
			if r.restarts < 8 {
				r.clean()
			}
		case 2:
			if r.restarts < 8 {
				r.crash()
			}
		case 3:
			r.retry()
		}
		if r.restarts > 0 {
			most = max(most, len(r.N.Adopted)+int(r.N.Head.Height))
		}
	})
	if r.restarts == 0 {
		r.clean()
	}
	if r.inside > 0 || r.restarts > 1 {
		t.NonTrivial()
	}
	t.Label(fmt.Sprintf("restarts: %d", min(r.restarts, 5)))
}

// ArmRestarts is the arm of C22.
func ArmRestarts() pbt.Arm {
	return pbt.Arm{Name: "restarts", Rule: "Histories as for the fork choice on a node with a save directory, whose file operations are recorded. At drawn moments the node is dropped and " +
		"another is started over the directory, or over a copy of it as it was after any single file operation, or inside any write, of a step or of a start. The new node must " +
		"have the head and ledger of before or after the step and everything stored before; the history (including the interrupted offer and transactions that were pending) then " +
		"goes on against the reference node. Non-trivial: a crash inside a step, or two restarts.",
		Quick: 500, Thorough: 12000, Chunk: 12, Bubble: true, Run: runRestarts}
}
