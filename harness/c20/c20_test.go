//go:build go1.25

package c20

import (
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/wire"
	"github.com/levilutz/basiccoin/pkg/core"
)

const patience = 15 * time.Second

func eventually(d time.Duration, f func() bool) bool {
	until := time.Now().Add(d)
	for !f() {
		if time.Now().After(until) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
	return true
}

func trim(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%.40q… (%d bytes)", s, len(s))
	}
	return fmt.Sprintf("%q", s)
}

// state of a remote end.
type state int

const (
	pending  state = iota
	admitted       // the node answers it
	refused        // told to close
	self           // told it is the node itself
	broken         // none of these
)

func (s state) String() string {
	return []string{"pending", "admitted", "refused", "taken for itself", "broken off"}[s]
}

// foe is a remote end of the node, served by its own goroutine.
type foe struct {
	*wire.Foe
	w       *world
	id      string
	ops     chan func()
	done    chan struct{}
	mu      sync.Mutex
	st      state
	why     string
	ended   bool // the connection is over
	ending  bool // because this end wants it
	lists   []map[string]string
	asked   int
	was     int // times the node asked for addresses
	ann     []string
	alts    map[string]string
	decided chan struct{}
}

func (f *foe) set(st state, why string) {
	f.mu.Lock()
	if f.st == pending {
		f.st, f.why = st, why
		close(f.decided)
	}
	f.mu.Unlock()
}

func (f *foe) state() state { f.mu.Lock(); defer f.mu.Unlock(); return f.st }

func (f *foe) readAddrs() map[string]string {
	n := f.GetNum()
	m := map[string]string{}
	for i := uint64(0); i < n && i < 1000; i++ {
		k := f.GetStr()
		if _, ok := m[k]; ok {
			f.w.bad("list", "%s is sent a list with %s twice", trim(f.id), trim(k))
		}
		m[k] = f.GetStr()
	}
	if uint64(len(m)) != n {
		f.w.bad("list", "%s is sent a list of %d addresses", trim(f.id), n)
	}
	return m
}

func (f *foe) onCmd(cmd string) {
	switch cmd {
	case "peer-addrs":
		m := f.readAddrs()
		f.mu.Lock()
		f.lists = append(f.lists, m)
		f.mu.Unlock()
	case "addrs-request":
		f.mu.Lock()
		f.was++
		f.mu.Unlock()
	case "announce-addr":
		a := f.GetStr()
		f.mu.Lock()
		f.ann = append(f.ann, a)
		f.mu.Unlock()
	case "sync-chain":
		f.Sync(&wire.Offer{})
	default:
		f.w.bad("command", "%s is sent the command %s", trim(f.id), trim(cmd))
	}
}

// enter shakes hands and finds out whether the node takes the connection.
func (f *foe) enter() {
	for _, s := range []string{"levilutz/basiccoin", "v0.0.0", f.id} {
		f.Str(s)
	}
	f.Want("levilutz/basiccoin")
	f.Want("v0.0.0")
	f.Want(f.w.node)
	f.Str("continue")
	if s := f.GetStr(); s == "cancel" {
		f.set(self, "")
		f.C.Close()
		panic(wire.Gone{Why: "self"})
	} else if s != "continue" {
		panic(wire.Gone{Why: fmt.Sprintf("%q at the end of the handshake", s)})
	}
	f.Str("cmd:ping")
	for {
		s := f.GetStr()
		switch {
		case s == "ack:ping":
			f.set(admitted, "")
			return
		case s == "cmd:close":
			f.set(refused, "")
			// It must be closed now
			f.C.SetReadDeadline(time.Now().Add(patience))
			var b [1]byte
			n, err := f.C.Read(b[:])
			if ne, ok := err.(net.Error); n > 0 || ok && ne.Timeout() {
				f.w.bad("refused-open", "the refused connection of %s is not closed (read %d bytes, %v)", trim(f.id), n, err)
			}
			panic(wire.Gone{Why: "refused"})
		case s == "cmd:peer-addrs":
			m := f.readAddrs()
			f.mu.Lock()
			f.alts = m
			f.mu.Unlock()
			f.Want("cmd:close")
			f.set(refused, "")
			f.C.SetReadDeadline(time.Now().Add(patience))
			var b [1]byte
			n, err := f.C.Read(b[:])
			if ne, ok := err.(net.Error); n > 0 || ok && ne.Timeout() {
				f.w.bad("refused-open", "the refused connection of %s is not closed (read %d bytes, %v)", trim(f.id), n, err)
			}
			panic(wire.Gone{Why: "refused"})
		case strings.HasPrefix(s, "cmd:") && f.Init:
			f.Handle(s)
		case strings.HasPrefix(s, "cmd:"):
			f.Want("ack:ping")
			f.Handle(s)
			f.set(admitted, "")
			return
		default:
			panic(wire.Gone{Why: fmt.Sprintf("%s in answer to a ping", trim(s))})
		}
	}
}

// live runs the remote end.
func (f *foe) live() {
	defer close(f.done)
	why := wire.Try(func() {
		f.enter()
		for {
			select {
			case op := <-f.ops:
				op()
			default:
				f.Serve(15 * time.Millisecond)
			}
		}
	})
	f.set(broken, why)
	f.mu.Lock()
	f.ended = true
	lost := f.st == admitted && !f.ending
	f.mu.Unlock()
	if lost {
		f.w.bad("dropped", "the connection of %s, once admitted, ends: %s", trim(f.id), why)
	}
	f.C.Close()
}

// do runs an operation in the remote end's goroutine.
func (f *foe) do(op func()) bool {
	ok := make(chan struct{})
	select {
	case f.ops <- func() { op(); close(ok) }:
	case <-f.done:
		return false
	}
	select {
	case <-ok:
		return true
	case <-f.done:
		return false
	}
}

// spot is a listener of the harness.
type spot struct {
	ln   *net.TCPListener
	addr string
	mu   sync.Mutex
	n    int
	trap string // why nothing may connect
	got  []*foe
}

func (s *spot) count() int { s.mu.Lock(); defer s.mu.Unlock(); return s.n }
func (s *spot) foes() []*foe {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*foe{}, s.got...)
}

type world struct {
	t      *pbt.T
	node   string // runtime id of the node
	addr   string
	ip     net.IP // where spots are
	max    int
	listen bool
	late   time.Duration // new spots are not up before
	b      *bus.Bus
	in     map[string]*foe
	addrs  map[string]string          // announced by connected
	maybe  map[string]bool            // announced by an earlier connection of a connected
	ever   map[string]map[string]bool // announced ever
	sure   bool                       // all closings were noticed
	settle bool                       // all announcements were noticed
	ghost  bool                       // one that left may still be noticed to announce
	spots  []*spot
	all    []*foe
	mu     sync.Mutex
	wrong  []string // key, message
	n      int
	self   int
}

func (w *world) bad(key, format string, a ...any) {
	w.mu.Lock()
	w.wrong = append(w.wrong, key, fmt.Sprintf(format, a...))
	w.mu.Unlock()
}

func (w *world) poll() {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.wrong) > 0 {
		w.t.Fail(w.wrong[0], "%s", w.wrong[1])
	}
}

func (w *world) newFoe(c *net.TCPConn, init bool, id string) *foe {
	f := &foe{w: w, id: id, ops: make(chan func()), done: make(chan struct{}), decided: make(chan struct{}),
		Foe: &wire.Foe{C: c, Init: init, Patience: patience}}
	f.OnCmd = f.onCmd
	c.SetLinger(0)
	w.mu.Lock()
	w.all = append(w.all, f)
	w.mu.Unlock()
	go f.live()
	return f
}

// dial connects to the node.
func (w *world) dial(id string) *foe {
	a, _ := net.ResolveTCPAddr("tcp", w.addr)
	var c *net.TCPConn
	if !eventually(patience, func() bool {
		var err error
		c, err = net.DialTCP("tcp", nil, a)
		return err == nil
	}) {
		w.t.Fail("deaf", "the node does not listen on %s", w.addr)
	}
	return w.newFoe(c, true, id)
}

// spot opens a listener, at an address no node of another case retries; a connection to it is by a peer named id.
func (w *world) spot(id, trap string) *spot {
	ip := w.ip
	if ip == nil {
		ip = net.IPv4(127, byte(1+rand.IntN(254)), byte(rand.IntN(256)), byte(1+rand.IntN(254)))
	}
	ln, err := net.ListenTCP("tcp", &net.TCPAddr{IP: ip})
	if err != nil {
		panic("infrastructure: " + err.Error())
	}
	s := &spot{ln: ln, addr: ln.Addr().String(), trap: trap}
	w.spots = append(w.spots, s)
	if w.late > 0 { // nothing is there for a while
		ln.Close()
	}
	late := w.late
	go func() {
		if late > 0 {
			time.Sleep(late)
			var err error
			for range 20 {
				if ln, err = net.ListenTCP("tcp", s.ln.Addr().(*net.TCPAddr)); err == nil {
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			if err != nil {
				panic("infrastructure: " + err.Error())
			}
			w.mu.Lock()
			s.ln = ln
			w.mu.Unlock()
		}
		for {
			c, err := ln.AcceptTCP()
			if err != nil {
				return
			}
			f := w.newFoe(c, false, id)
			s.mu.Lock()
			s.n++
			s.got = append(s.got, f)
			s.mu.Unlock()
		}
	}()
	return s
}

func (w *world) closeAll() {
	w.mu.Lock()
	for _, s := range w.spots {
		s.ln.Close()
	}
	w.mu.Unlock()
	w.mu.Lock()
	all := append([]*foe{}, w.all...)
	w.mu.Unlock()
	for _, f := range all {
		f.mu.Lock()
		f.ending = true
		f.mu.Unlock()
		f.C.Close()
	}
}

func (w *world) fresh() string {
	w.n++
	base := fmt.Sprintf("p%d", w.n)
	switch w.t.Weighted(16, 2, 2, 2) {
	case 3: // much like the node's own
		return pbt.Pick(w.t, []string{w.node + base, base + w.node, strings.ToUpper(w.node) + base, " " + w.node + base})
	case 1:
		return base + string(w.t.Bytes(w.t.Range(1, 20)))
	case 2:
		return base + strings.Repeat("y", w.t.Range(100, 65000))
	}
	return base
}

func (w *world) ids() []string { return pbt.SortedKeys(w.in) }

func show(m map[string]string) string {
	var ls []string
	for k, v := range m {
		ls = append(ls, trim(k)+" at "+trim(v))
	}
	sort.Strings(ls)
	return "[" + strings.Join(ls, ", ") + "]"
}

// fits tells whether a list has exactly the announced addresses.
func (w *world) fits(m map[string]string) bool {
	for k, v := range m {
		if a, ok := w.addrs[k]; (!ok || a != v) && !(w.maybe[k] && w.ever[k][v]) {
			return false
		}
	}
	for k := range w.addrs {
		if _, ok := m[k]; !ok {
			return false
		}
	}
	return true
}

// sane fails for an address nobody announced.
func (w *world) sane(what string, m map[string]string) {
	for k, v := range m {
		if !w.ever[k][v] {
			w.t.Fail("invented", "%s has %s at %s, never announced", what, trim(k), trim(v))
		}
	}
}

func (w *world) announce(id, addr string) {
	f := w.in[id]
	if !f.do(func() { f.Command("announce-addr", func() { f.Str(addr) }) }) {
		w.poll()
		w.t.Fail("dropped", "the connection of %s ends as it announces its address", trim(id))
	}
	w.addrs[id] = addr
	delete(w.maybe, id)
	if w.ever[id] == nil {
		w.ever[id] = map[string]bool{}
	}
	w.ever[id][addr] = true
	w.settle = false
}

// request asks for addresses until they are right.
func (w *world) request(id string) {
	f := w.in[id]
	var last map[string]string
	if !eventually(patience, func() bool {
		f.mu.Lock()
		f.asked++
		n := len(f.lists)
		f.mu.Unlock()
		if !f.do(func() { f.Command("addrs-request", func() {}) }) {
			w.poll()
			w.t.Fail("dropped", "the connection of %s ends as it asks for addresses", trim(id))
		}
		if !eventually(patience, func() bool { f.mu.Lock(); defer f.mu.Unlock(); return len(f.lists) > n }) {
			w.poll()
			w.t.Fail("unanswered", "%s asks for addresses and gets none within %v", trim(id), patience)
		}
		f.mu.Lock()
		last = f.lists[len(f.lists)-1]
		f.mu.Unlock()
		w.sane("the list given to "+trim(id), last)
		if w.settle && !w.fits(last) {
			return true
		}
		return w.fits(last)
	}) || !w.fits(last) {
		w.t.Fail("list", "%s asks for addresses and gets %s, but the connected peers announced %s", trim(id), show(last), show(w.addrs))
	}
	w.settle = !w.ghost
}

// judge checks the outcome of connections attempted at the same time.
func (w *world) judge(fs []*foe, what string) {
	room := w.max - len(w.in)
	fresh := map[string]int{}
	settled := w.settle
	for _, f := range fs {
		select {
		case <-f.decided:
		case <-time.After(2 * patience):
			w.poll()
			w.t.Fail("undecided", "%s: %s is neither admitted nor refused", what, trim(f.id))
		}
		st := f.state()
		w.t.Note("  %s is %v", trim(f.id), st)
		_, known := w.in[f.id]
		switch {
		case st == broken:
			w.poll()
			w.t.Fail("broken", "%s: the connection of %s breaks off: %s", what, trim(f.id), f.why)
		case f.id == w.node:
			w.self++
			if st != self {
				w.t.Fail("self", "%s: a connection to itself is %v", what, st)
			}
			continue
		case st == self:
			w.t.Fail("self", "%s: the connection of %s is taken for one to itself", what, trim(f.id))
		case known && st == admitted:
			w.t.Fail("twice", "%s: a second connection of %s is admitted", what, trim(f.id))
		}
		if known {
			continue
		}
		if _, ok := fresh[f.id]; !ok {
			fresh[f.id] = 0
		}
		if st == admitted {
			if fresh[f.id]++; fresh[f.id] > 1 {
				w.t.Fail("twice", "%s: two connections of %s are admitted", what, trim(f.id))
			}
		}
	}
	n := 0
	for _, k := range fresh {
		n += k
	}
	if n > room {
		w.t.Fail("full", "%s: %d connections are admitted with %d of %d slots taken", what, n, len(w.in), w.max)
	}
	if want := min(room, len(fresh)); w.sure && n < want {
		w.t.Fail("shut-out", "%s: %d of %d new peers are admitted with %d of %d slots taken", what, n, len(fresh), len(w.in), w.max)
	}
	for _, f := range fs {
		if f.state() == refused {
			f.mu.Lock()
			alts := f.alts
			f.mu.Unlock()
			if alts == nil {
				alts = map[string]string{}
			}
			w.sane("the alternatives told to "+trim(f.id), alts)
			if settled && !w.fits(alts) {
				w.t.Fail("alternatives", "%s: %s is refused and told of %s, but the connected peers announced %s", what, trim(f.id), show(alts), show(w.addrs))
			}
		}
	}
	for _, f := range fs {
		if f.state() == admitted {
			w.in[f.id] = f
			if !w.sure || !w.settle {
				w.maybe[f.id] = true
			}
		}
	}
}

// leave ends a connection.
func (w *world) leave(id string, how int) {
	f := w.in[id]
	f.mu.Lock()
	f.ending = true
	f.mu.Unlock()
	switch how {
	case 0:
		f.do(func() { f.Str("cmd:close") })
	case 1:
		f.C.Close()
	case 2:
		f.C.CloseWrite()
	case 3:
		f.do(func() { f.Str("cmd:new-tx"); f.Str("x") })
		f.C.CloseWrite()
	case 4, 5:
		a := fmt.Sprintf("10.0.1.%d:1", w.n%250)
		if w.ever[id] == nil {
			w.ever[id] = map[string]bool{}
		}
		w.ever[id][a] = true
		f.do(func() {
			f.Command("announce-addr", func() { f.Str(a) })
			if how == 4 {
				f.Str("cmd:close")
			} else {
				f.C.CloseWrite()
			}
		})
	}
	delete(w.in, id)
	delete(w.addrs, id)
	delete(w.maybe, id)
}

// send gives the node addresses.
func (w *world) send(from string, ids, addrs []string) {
	f := w.in[from]
	if !f.do(func() {
		f.Command("peer-addrs", func() {
			f.Num(uint64(len(ids)))
			for i := range ids {
				f.Str(ids[i])
				f.Str(addrs[i])
			}
		})
	}) {
		w.poll()
		w.t.Fail("dropped", "the connection of %s ends as it sends addresses", trim(from))
	}
}

// dialed awaits connections to spots, and judges them together.
func (w *world) dialed(ss []*spot, before []int, what string) {
	var fs []*foe
	for i, s := range ss {
		if !eventually(2*patience, func() bool { return len(s.foes()) > before[i] }) {
			w.poll()
			w.t.Fail("undialed", "%s: the address of an unknown peer is not dialed within %v", what, 2*patience)
		}
		fs = append(fs, s.foes()[before[i]:]...)
	}
	w.judge(fs, what)
	for i, s := range ss {
		if n := len(s.foes()) - before[i]; n > 1 {
			w.t.Fail("dialed-twice", "%s: an address received once is dialed %d times", what, n)
		}
	}
}

func start(t *pbt.T, p peerfactory.Params, seeds []string) *world {
	w := &world{t: t, node: p.RuntimeId, addr: p.LocalAddr, max: p.MaxPeers, listen: p.Listen, b: bus.NewBus(),
		in: map[string]*foe{}, addrs: map[string]string{}, maybe: map[string]bool{}, ever: map[string]map[string]bool{}, sure: true, settle: true}
	t.Cleanup(w.closeAll)
	return w
}

func randAddr() string {
	return fmt.Sprintf("127.%d.%d.%d:2172", 1+rand.IntN(254), rand.IntN(256), 1+rand.IntN(254))
}

func (w *world) run(p peerfactory.Params, seeds []string) {
	pf := peerfactory.NewPeerFactory(p, w.b, inv.NewInv(core.DevNetParams(), nil))
	if seeds != nil {
		pf.SetSeeds(seeds)
	}
	go pf.Loop()
}

// told checks what the connected were told of the node's own address.
func (w *world) told() {
	t := w.t
	for _, id := range w.ids() {
		f := w.in[id]
		if w.listen && !eventually(patience, func() bool { f.mu.Lock(); defer f.mu.Unlock(); return len(f.ann) > 0 }) {
			t.Fail("unannounced", "%s is not told where the node listens", trim(id))
		}
		f.mu.Lock()
		ann := f.ann
		f.mu.Unlock()
		if w.listen && (len(ann) != 1 || ann[0] != w.addr) {
			t.Fail("announced", "%s is told that the node listens at %q, not once %q", trim(id), ann, w.addr)
		} else if !w.listen && len(ann) > 0 {
			t.Fail("announced", "%s is told that the node listens at %q, but it does not", trim(id), ann)
		}
	}
	if c, err := net.DialTimeout("tcp", w.addr, time.Second); !w.listen && err == nil {
		c.Close()
		t.Fail("listens", "the node listens on %s, but was not to", w.addr)
	}
}

// finish checks what holds at the end of a history.
func (w *world) finish() {
	t := w.t
	for _, id := range w.ids() {
		f := w.in[id]
		if !f.do(func() { f.Command("ping", func() {}) }) {
			w.poll()
			t.Fail("dropped", "%s, admitted, is no longer served", trim(id))
		}
		f.mu.Lock()
		lists, asked := len(f.lists), f.asked
		f.mu.Unlock()
		if lists != asked {
			t.Fail("unasked", "%s asked %d times for addresses and got %d lists", trim(id), asked, lists)
		}
	}
	w.told()
	if len(w.in) > 0 {
		// Addresses are dialed in order, so what is to be dialed is once a last one was
		from := w.ids()[0]
		id := w.fresh()
		m := w.spot(id, "")
		w.send(from, []string{id}, []string{m.addr})
		w.dialed([]*spot{m}, []int{0}, "a last address")
		w.request(from)
	}
	for _, s := range w.spots {
		if s.trap != "" && s.count() > 0 {
			t.Fail("dialed", "the node dials the address of %s", s.trap)
		}
	}
	w.poll()
}

func runGate(t *pbt.T) {
	p := peerfactory.Params{Listen: true, LocalAddr: randAddr(), MinPeers: t.Range(0, 3), MaxPeers: t.Range(1, 6),
		RuntimeId: "node", SeekNewPeersFreq: time.Hour}
	if t.Chance(30) {
		p.SeekNewPeersFreq = time.Duration(t.Range(100, 600)) * time.Millisecond
	}
	if t.Chance(20) {
		p.RuntimeId += strings.Repeat("z", t.Range(1, 300))
	}
	t.Note("a node taking %d peers, seeking each %v", p.MaxPeers, p.SeekNewPeersFreq)
	w := start(t, p, nil)
	w.run(p, nil)
	old := []string{}
	kinds := map[string]bool{}
	// name draws who connects.
	name := func() string {
		k := t.Weighted(6, 2, 1, 2)
		switch {
		case k == 1 && len(w.in) > 0:
			kinds["again"] = true
			return pbt.Pick(t, w.ids())
		case k == 2:
			kinds["self"] = true
			return w.node
		case k == 3 && len(old) > 0:
			kinds["back"] = true
			return pbt.Pick(t, old)
		}
		return w.fresh()
	}
	// claim draws an address to announce.
	claim := func() string {
		switch t.Weighted(6, 1, 1, 1) {
		case 1:
			return w.addr
		case 2:
			return ""
		case 3:
			return string(t.Bytes(t.Range(1, 400)))
		}
		return fmt.Sprintf("10.0.0.%d:%d", t.Intn(250), t.Intn(65536))
	}
	t.Steps(2, 8, 24, func(int) {
		k := t.Weighted(5, 3, 3, 3, 4, 3)
		if len(w.in) == 0 && k != 1 {
			k = 0
		}
		switch k {
		case 0: // one connects
			id := name()
			t.Note("%s connects", trim(id))
			_, known := w.in[id]
			if !known && id != w.node && len(w.in) < w.max && !w.sure {
				// A closing may not have been noticed yet
				var f *foe
				if !eventually(patience, func() bool {
					f = w.dial(id)
					<-f.decided
					return f.state() != refused
				}) {
					t.Fail("shut-out", "%s is refused for %v though only %d of %d slots are taken", trim(id), patience, len(w.in), w.max)
				}
				w.judge([]*foe{f}, "a connection")
			} else {
				if len(w.in) == w.max {
					kinds["full"] = true
				}
				w.judge([]*foe{w.dial(id)}, "a connection")
			}
		case 1: // several connect
			t.Note("connections at once")
			n := t.Range(2, w.max+3)
			var ids []string
			for range n {
				if len(ids) > 0 && t.Chance(20) {
					ids = append(ids, pbt.Pick(t, ids))
				} else {
					ids = append(ids, name())
				}
			}
			var mu sync.Mutex
			var wg sync.WaitGroup
			var fs []*foe
			for _, id := range ids {
				wg.Add(1)
				go func() {
					defer wg.Done()
					a, _ := net.ResolveTCPAddr("tcp", w.addr)
					var c *net.TCPConn
					eventually(patience, func() bool {
						var err error
						c, err = net.DialTCP("tcp", nil, a)
						return err == nil
					})
					mu.Lock()
					defer mu.Unlock()
					if c == nil {
						w.bad("deaf", "the node does not listen")
						return
					}
					fs = append(fs, w.newFoe(c, true, id))
				}()
			}
			wg.Wait()
			w.poll()
			kinds["burst"] = true
			w.judge(fs, "connections at once")
		case 2: // one announces its address
			id, a := pbt.Pick(t, w.ids()), claim()
			t.Note("%s announces %s", trim(id), trim(a))
			w.announce(id, a)
			kinds["announce"] = true
		case 3: // one asks
			id := pbt.Pick(t, w.ids())
			t.Note("%s asks for addresses (%d announced)", trim(id), len(w.addrs))
			w.request(id)
			kinds["ask"] = true
		case 4: // one leaves
			id, how := pbt.Pick(t, w.ids()), t.Intn(6)
			clean := len(w.in) > 1 && t.Chance(70)
			t.Note("%s leaves (%s, %v)", trim(id), []string{"close", "disconnect", "half-close", "violation", "announces and closes", "announces and half-closes"}[how], clean)
			var other string
			if clean {
				for _, x := range w.ids() {
					if x != id {
						other = x
					}
				}
				if _, ok := w.addrs[id]; !ok {
					w.announce(id, claim())
				}
				if !w.settle {
					w.request(other)
				}
			}
			w.leave(id, how)
			old = append(old, id)
			w.settle = false
			if clean {
				w.request(other)
				if t.Chance(40) {
					// The announcement and the closing come over different channels
					t.Note("an announcement of %s is noticed late", trim(id))
					w.ever[id]["10.0.2.1:1"] = true
					w.b.PeerAnnouncedAddr.Pub(bus.PeerAnnouncedAddrEvent{PeerRuntimeId: id, Addr: "10.0.2.1:1"})
					w.settle = false
					kinds["late"] = true
				}
			} else {
				w.sure = false
				w.ghost = w.ghost || how >= 4
			}
			kinds["leave"] = true
		case 5: // one sends addresses
			from := pbt.Pick(t, w.ids())
			room := w.max - len(w.in)
			var ids, addrs, what []string
			var ss []*spot
			used := map[string]bool{}
			for range t.Range(1, 5) {
				k := t.Weighted(4, 2, 2, 1, 1)
				id := w.fresh()
				var a string
				switch k {
				case 0: // unknown
					as := id
					if t.Chance(25) {
						as = name()
					}
					s := w.spot(as, "")
					ss = append(ss, s)
					a = s.addr
					what = append(what, "a new one, named "+trim(as))
				case 1: // known
					id = pbt.Pick(t, w.ids())
					if used[id] {
						continue
					}
					a = w.spot(w.fresh(), "a known peer").addr
					what = append(what, "known "+trim(id))
				case 2: // the node
					id = w.node
					if used[id] {
						continue
					}
					a = w.spot(w.fresh(), "itself").addr
					what = append(what, "itself")
				case 3: // under another name
					a = w.addr
					what = append(what, "itself under another name")
				case 4: // nowhere
					a = pbt.Pick(t, []string{"", "127.0.0.1", "127.0.0.1:1", "127.0.0.1:99999", "[::1", ":", "127.0.0.1:-1", string(t.Bytes(t.Range(0, 30))) + "\x00"})
					what = append(what, "nowhere")
				}
				used[id] = true
				ids, addrs = append(ids, id), append(addrs, a)
			}
			t.Note("%s sends addresses of %s", trim(from), strings.Join(what, ", "))
			if len(ss) > room {
				kinds["overflow"] = true
			}
			w.send(from, ids, addrs)
			if len(ss) > 0 {
				w.dialed(ss, make([]int, len(ss)), "addresses")
			}
			kinds["addrs"] = true
		}
		w.poll()
	})
	if p.SeekNewPeersFreq < time.Hour && len(w.in) > 0 && len(w.in) < w.max && w.sure {
		n := func() (n int) {
			for _, f := range w.in {
				f.mu.Lock()
				n += f.was
				f.mu.Unlock()
			}
			return
		}
		n0 := n()
		if !eventually(patience, func() bool { return n() > n0 }) {
			t.Fail("idle", "with %d of %d slots taken, no peer is asked for addresses within %v", len(w.in), w.max, patience)
		}
		kinds["seek"] = true
	}
	w.finish()
	// The slots are all usable again
	if t.Chance(60) {
		for _, id := range w.ids() {
			w.leave(id, t.Intn(6))
		}
		t.Note("all leave")
		w.sure, w.settle = false, false
		for i := 0; i < w.max; i++ {
			var f *foe
			id := w.fresh()
			if !eventually(patience, func() bool {
				f = w.dial(id)
				<-f.decided
				return f.state() != refused
			}) {
				t.Fail("slots", "after all peers left, only %d of %d slots can be used", i, w.max)
			}
			w.judge([]*foe{f}, "a connection after all left")
		}
		w.judge([]*foe{w.dial(w.fresh())}, "one more")
		if !eventually(patience, func() bool {
			f := w.dial(w.fresh())
			w.judge([]*foe{f}, "one more")
			f.mu.Lock()
			defer f.mu.Unlock()
			return len(f.alts) == 0
		}) {
			t.Fail("alternatives", "a refused connection is still told of peers that left")
		}
		w.poll()
	}
	if len(kinds) >= 3 {
		t.NonTrivial()
	}
	for k := range kinds {
		t.Label(k)
	}
}

// runSeek has a node with seeds.
func runSeek(t *pbt.T) {
	p := peerfactory.Params{Listen: t.Bool(), LocalAddr: randAddr(), MinPeers: t.Range(0, 3), MaxPeers: t.Range(1, 5),
		RuntimeId: "node", SeekNewPeersFreq: time.Duration(t.Range(100, 500)) * time.Millisecond}
	w := start(t, p, nil)
	var seeds []string
	var ss []*spot
	n := t.Range(1, 4)
	alive := t.Intn(n)
	names := []string{}
	if t.Chance(20) { // the only living seed comes up after the node
		w.late = time.Duration(t.Range(1, 2500)) * time.Millisecond
	}
	for i := range n {
		if i == alive || w.late == 0 && t.Chance(60) {
			id := w.fresh()
			if i != alive && len(names) > 0 && t.Chance(15) {
				id = pbt.Pick(t, names)
			} else if i != alive && t.Chance(10) {
				id = w.node
			}
			names = append(names, id)
			s := w.spot(id, "")
			ss = append(ss, s)
			seeds = append(seeds, s.addr)
		} else {
			seeds = append(seeds, pbt.Pick(t, []string{"127.0.0.1:1", "nowhere", "127.0.0.1:99999", ""}))
		}
	}
	t.Note("a node taking %d peers, seeking each %v, listening %v, with %d seeds, %d alive after %v", p.MaxPeers, p.SeekNewPeersFreq, p.Listen, n, len(ss), w.late)
	w.late = 0
	w.run(p, seeds)
	// reach waits until what can be is connected to the seeds
	reach := func(what string, before []int) {
		var fs []*foe
		if !eventually(2*patience, func() bool {
			fs = nil
			in := map[string]bool{}
			others := map[string]bool{}
			for i, s := range ss {
				for _, f := range s.foes()[before[i]:] {
					fs = append(fs, f)
					if f.id != w.node {
						others[f.id] = true
					}
					if f.state() == admitted {
						in[f.id] = true
					}
				}
			}
			ids := map[string]bool{}
			for _, x := range names {
				if x != w.node {
					ids[x] = true
				}
			}
			return len(in) == min(len(ids), w.max)
		}) {
			w.poll()
			t.Fail("seeds", "%s: the node does not connect to its %d living seeds (of %d) within %v", what, len(ss), n, 2*patience)
		}
		w.judge(fs, what)
	}
	reach("the start", make([]int, len(ss)))
	w.poll()
	if len(w.in) == w.max && t.Bool() {
		asked := func() (n int) {
			for _, x := range w.in {
				x.mu.Lock()
				n += x.was
				x.mu.Unlock()
			}
			return
		}
		time.Sleep(p.SeekNewPeersFreq + 200*time.Millisecond) // for what was on its way
		n := asked()
		time.Sleep(4*p.SeekNewPeersFreq + 100*time.Millisecond)
		if k := asked() - n; k > 1 {
			t.Fail("greedy", "all %d slots are taken and yet peers are asked for addresses %d times", w.max, k)
		}
		t.Label("full")
	}
	// More addresses of a peer
	if len(w.in) < w.max || t.Chance(30) {
		from := pbt.Pick(t, w.ids())
		id := w.fresh()
		s := w.spot(id, "")
		room := w.max - len(w.in)
		f := w.in[from]
		if room > 0 && !eventually(patience, func() bool {
			n := 0
			for _, x := range w.in {
				x.mu.Lock()
				n += x.was
				x.mu.Unlock()
			}
			return n > 0
		}) {
			t.Fail("idle", "with %d of %d slots taken, no peer is asked for addresses within %v", len(w.in), w.max, patience)
		}
		t.Note("%s sends an address", trim(from))
		_ = f
		w.send(from, []string{id}, []string{s.addr})
		w.dialed([]*spot{s}, []int{0}, "an address")
	}
	for _, id := range w.ids() {
		w.announce(id, fmt.Sprintf("10.0.0.1:%d", t.Intn(60000)))
	}
	w.request(pbt.Pick(t, w.ids()))
	// All leave: the seeds are tried again
	for range t.Range(1, 2) {
		t.Note("all leave")
		before := make([]int, len(ss))
		for i, s := range ss {
			before[i] = len(s.foes())
		}
		for _, id := range w.ids() {
			w.leave(id, t.Intn(6))
		}
		// A closing may be noticed after the seeds were first dialed again
		w.sure = false
		reach("after all left", before)
		w.poll()
		w.settle = false
		w.request(pbt.Pick(t, w.ids()))
	}
	for _, id := range w.ids() {
		f := w.in[id]
		if !f.do(func() { f.Command("ping", func() {}) }) {
			w.poll()
			t.Fail("dropped", "%s, admitted, is no longer served", trim(id))
		}
	}
	w.told()
	w.poll()
	t.NonTrivial()
}

// runDiscover has a node find its own address from its seed's connection.
func runDiscover(t *pbt.T) {
	lock, err := os.OpenFile(os.TempDir()+"/pbt-21720.lock", os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		panic("infrastructure: " + err.Error())
	}
	// Held until the process ends, as the node listens until then
	syscall.Flock(int(lock.Fd()), syscall.LOCK_EX)
	locks = append(locks, lock)
	six := t.Bool()
	ip, want := net.ParseIP("127.0.0.1"), "127.0.0.1:21720"
	if six {
		ip, want = net.IPv6loopback, "[::1]:21720"
	}
	if !eventually(patience, func() bool {
		ln, err := net.ListenTCP("tcp", &net.TCPAddr{IP: ip, Port: 21720})
		if err == nil {
			ln.Close()
		}
		return err == nil
	}) {
		t.Discard() // no such address here, or the port is taken
	}
	p := peerfactory.Params{Listen: true, MaxPeers: t.Range(2, 4), RuntimeId: "node", SeekNewPeersFreq: time.Hour}
	w := start(t, p, nil)
	w.addr = want
	w.ip = ip
	s := w.spot(w.fresh(), "")
	w.run(p, []string{s.addr})
	t.Note("a node without a given address, with a seed at %s", s.addr)
	// It is dialed again after the first connection
	if !eventually(patience, func() bool { return len(s.foes()) > 1 }) {
		t.Fail("seeds", "the seed is not dialed")
	}
	w.judge(s.foes(), "the seed")
	for range t.Range(1, w.max) {
		w.judge([]*foe{w.dial(w.fresh())}, "a connection")
	}
	a := pbt.Pick(t, w.ids())
	w.announce(a, "10.0.0.1:1")
	w.request(pbt.Pick(t, w.ids()))
	w.finish()
	t.NonTrivial()
}

var locks []*os.File

func TestPBT(tt *testing.T) {
	pbt.Main(tt, []pbt.Arm{
		{Name: "gate", Quick: 600, Thorough: 15000, Chunk: 25, Par: 5, Workers: 24, StallS: 180, Retry: true, Run: runGate,
			Rule: "a listening peer factory with room for 1-6 peers and 2-24 steps: connections one by one and at once (new, repeated, returning and own ids; odd and long ids), announcements, requests, departures in six ways, address lists (new, known, own, own under another name, nowhere); every remote end is admitted exactly if a reference model says so, lists and alternatives equal what the connected peers announced, only unknown peers are dialed, all slots are usable at the end; non-trivial: at least three kinds of step"},
		{Name: "seek", Quick: 200, Thorough: 4000, Chunk: 25, Par: 5, Workers: 24, StallS: 180, Retry: true, Run: runSeek,
			Rule: "a peer factory with 1-4 seeds, some dead, duplicate or itself: it connects to the living ones up to its maximum, asks for addresses while it has room and not when full, dials a received one, and reaches its seeds again each time all peers left; non-trivial: always"},
		{Name: "discover", Quick: 12, Thorough: 60, Chunk: 1, Workers: 1, StallS: 180, Retry: true, Run: runDiscover,
			Rule: "a listening peer factory not told its address, with a seed reached over IPv4 or IPv6: it listens on the address it has there, announces it to every peer, and admits and serves peers there; non-trivial: always"},
	})
}
