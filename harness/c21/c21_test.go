//go:build go1.25

package c21

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/disksyncmap"
)

func hash(t *pbt.T) core.HashT { return model.T(t.Hash32()) }

// The kinds of record behind one interface.
type dmap interface {
	has(k core.HashT) bool
	get(k core.HashT) (string, bool) // false if it panics
	store(k core.HashT, v any)
}

type wrap[V fmt.Stringer] struct {
	m    *disksyncmap.DiskSyncMap[core.HashT, V]
	line func(V) string
}

func (w wrap[V]) has(k core.HashT) bool { return w.m.Has(k) }
func (w wrap[V]) get(k core.HashT) (s string, ok bool) {
	defer func() { // asking for an absent key is a programming error, reported by a panic
		if recover() != nil {
			s, ok = "", false
		}
	}()
	return w.line(w.m.Get(k)), true
}
func (w wrap[V]) store(k core.HashT, v any) { w.m.Store(k, v.(V)) }

func blockLine(r inv.BlockRecord) string { return fmt.Sprintf("%v", r) }

func merkleLine(r inv.MerkleRecord) string {
	return fmt.Sprintf("%v|%v|%d", r.Merkle.LChild, r.Merkle.RChild, r.VSize)
}

func txLine(r inv.TxRecord) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %v %d", r.VSize, r.Tx.IsCoinbase, r.Tx.MinBlock)
	for _, i := range r.Tx.Inputs {
		fmt.Fprintf(&b, " in %v %d %d %x %x", i.Utxo.TxId, i.Utxo.Ind, i.Utxo.Value, i.PublicKey, i.Signature)
	}
	for _, o := range r.Tx.Outputs {
		fmt.Fprintf(&b, " out %d %v", o.Value, o.PublicKeyHash)
	}
	return b.String()
}

const (
	kBlock = iota
	kMerkle
	kTx
)

var kindName = []string{"block", "merkle", "tx"}

func open(kind int, dir string) dmap {
	switch kind {
	case kBlock:
		return wrap[inv.BlockRecord]{disksyncmap.NewDiskSyncMap[core.HashT](dir, inv.BlockRecordFromString), blockLine}
	case kMerkle:
		return wrap[inv.MerkleRecord]{disksyncmap.NewDiskSyncMap[core.HashT](dir, inv.MerkleRecordFromString), merkleLine}
	default:
		return wrap[inv.TxRecord]{disksyncmap.NewDiskSyncMap[core.HashT](dir, inv.TxRecordFromString), txLine}
	}
}

func bytesOf(t *pbt.T, most int) []byte {
	n := 1 + t.Intn(most)
	switch t.Weighted(5, 1, 1) {
	case 1:
		return bytes.Repeat([]byte{'\n'}, n)
	case 2:
		return bytes.Repeat([]byte{0xff}, n)
	}
	return t.Bytes(n)
}

// record draws one; the second result is its line.
func record(t *pbt.T, kind int) (any, string) {
	switch kind {
	case kBlock:
		r := inv.BlockRecord{Block: core.Block{PrevBlockId: hash(t), MerkleRoot: hash(t), Target: hash(t), Noise: hash(t), Nonce: t.U64(), MinedTime: t.U64()},
			Height: t.U64(), TotalWork: hash(t)}
		return r, blockLine(r)
	case kMerkle:
		r := inv.MerkleRecord{Merkle: core.MerkleNode{LChild: hash(t), RChild: hash(t)}, VSize: t.U64()}
		return r, merkleLine(r)
	default:
		tx := core.Tx{IsCoinbase: t.Bool(), MinBlock: t.U64()}
		nIn, nOut := t.Intn(4), t.Intn(4)
		if t.Draw(40) == 39 {
			nIn = 1 + t.Intn(300)
		}
		if t.Draw(40) == 39 {
			nOut = 1 + t.Intn(1200)
		}
		for i := 0; i < nIn; i++ {
			most := 200
			if t.Draw(30) == 29 {
				most = 70000
			}
			tx.Inputs = append(tx.Inputs, core.TxIn{Utxo: core.Utxo{TxId: hash(t), Ind: t.U64(), Value: t.U64()}, PublicKey: bytesOf(t, most), Signature: bytesOf(t, 100)})
			if t.Draw(30) == 29 { // nothing in between other rows
				tx.Inputs[i].PublicKey = []byte{}
			}
		}
		for i := 0; i < nOut; i++ {
			tx.Outputs = append(tx.Outputs, core.TxOut{Value: t.U64(), PublicKeyHash: hash(t)})
		}
		r := inv.TxRecord{Tx: tx, VSize: model.TxVSize(tx)}
		return r, txLine(r)
	}
}

type store struct {
	t    *pbt.T
	kind int
	dir  string
	open []dmap // the last is the newest
	want map[core.HashT]string
	keys []core.HashT
	// keys whose last write was interrupted: absent or one of these lines
	maybe map[core.HashT][]string
}

func (s *store) key() core.HashT {
	t := s.t
	if len(s.keys) > 0 && t.Draw(3) > 0 {
		return s.keys[t.Intn(len(s.keys))]
	}
	k := hash(t)
	if len(s.keys) > 0 && t.Draw(4) == 3 { // one that differs in one digit
		d := s.keys[t.Intn(len(s.keys))].Data()
		d[t.Intn(32)] ^= 1 << t.Intn(8)
		k = model.T(d)
	}
	return k
}

func shorten(x string) string {
	if len(x) > 300 {
		return x[:300] + "..."
	}
	return x
}

func (s *store) look(m dmap, k core.HashT, when string) {
	t := s.t
	var has, ok bool
	var got string
	if t.Draw(3) == 2 { // without asking first whether it is there
		got, ok = m.get(k)
		has = m.has(k)
	} else {
		has = m.has(k)
		got, ok = m.get(k)
	}
	if has != ok {
		t.Fail("has-get", "%s: Has(%s) is %v but Get finds it: %v", when, k, has, ok)
	}
	if ls, ok := s.maybe[k]; ok {
		if !has {
			return
		}
		for _, l := range ls {
			if l == got {
				return
			}
		}
		t.Fail("different:"+kindName[s.kind], "%s: the write of %s was interrupted; the record read is neither absent nor the one written: %s, written was %s", when, k, shorten(got), shorten(ls[len(ls)-1]))
	}
	w, known := s.want[k]
	switch {
	case known && !has:
		t.Fail("lost:"+kindName[s.kind], "%s: the record of %s is gone: %s", when, k, shorten(w))
	case !known && has:
		t.Fail("made-up:"+kindName[s.kind], "%s: %s was never written but is %s", when, k, shorten(got))
	case known && got != w:
		t.Fail("changed:"+kindName[s.kind], "%s: the record of %s is %s, written was %s", when, k, shorten(got), shorten(w))
	}
}

func (s *store) all(when string) {
	m := open(s.kind, s.dir)
	for _, k := range s.keys {
		s.look(m, k, when)
	}
	for i := 0; i < 3; i++ {
		s.look(m, s.key(), when)
	}
}

func (s *store) files() []string {
	var out []string
	filepath.WalkDir(s.dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

var ignore = sync.OnceFunc(func() { signal.Ignore(syscall.SIGXFSZ) })

// limited runs f with writes beyond n bytes of any file failing.
func limited(n uint64, f func()) {
	ignore()
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := old
	lim.Cur = n
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

func length(r any) int { return len(r.(fmt.Stringer).String()) }

func sequence(t *pbt.T) {
	s := &store{t: t, kind: t.Intn(3), dir: filepath.Join(t.TempDir(), "sub", "records"), want: map[core.HashT]string{}, maybe: map[core.HashT][]string{}}
	t.Note("%s records", kindName[s.kind])
	s.open = []dmap{open(s.kind, s.dir)}
	newest := func() dmap { return s.open[len(s.open)-1] }
	reopens, faults := 0, 0
	put := func(k core.HashT) {
		r, line := record(t, s.kind)
		_, w := s.want[k]
		_, m := s.maybe[k]
		if w || m {
			s.open = s.open[len(s.open)-1:] // older ones may remember the old record
		} else {
			s.keys = append(s.keys, k)
		}
		t.Note("store %s: %s", k.String()[:8], shorten(line))
		newest().store(k, r)
		s.want[k] = line
		delete(s.maybe, k)
	}
	t.Steps(3, 20, 60, func(int) {
		switch t.Weighted(6, 5, 3, 2, 2, 1) {
		case 0:
			put(s.key())
		case 1: // ask any open instance
			k := s.key()
			s.look(s.open[t.Intn(len(s.open))], k, "reading")
		case 2:
			s.open = append(s.open, open(s.kind, s.dir))
			if len(s.open) > 3 {
				s.open = s.open[1:]
			}
			reopens++
			t.Note("open another instance")
		case 3: // a write that fails part way, and the end of that process
			k := s.key()
			r, line := record(t, s.kind)
			n := length(r)
			cut := uint64(t.Intn(n + 2))
			if t.Bool() && n > 4 {
				cut = uint64(n - 1 - t.Intn(4))
			}
			t.Note("store %s fails after %d bytes of about %d: %s", k.String()[:8], cut, n, shorten(line))
			limited(cut, func() { newest().store(k, r) })
			old, had := s.want[k]
			if _, m := s.maybe[k]; !had && !m {
				s.keys = append(s.keys, k)
			}
			if had {
				s.maybe[k] = []string{old, line}
			} else {
				s.maybe[k] = append(s.maybe[k], line)
			}
			delete(s.want, k)
			s.open = []dmap{open(s.kind, s.dir)}
			faults++
			s.look(newest(), k, "after a failed write")
			if t.Bool() {
				put(k) // writing it again must work
			}
		case 4: // a file cut or zeroed behind a point, as a crash of the machine may leave it
			fs := s.files()
			if len(fs) == 0 {
				return
			}
			f := fs[t.Intn(len(fs))]
			raw, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			last := bytes.LastIndexByte(bytes.TrimRight(raw, "\n"), '\n')
			if last < 0 {
				return
			}
			// inside the last row only where a shorter row cannot be a value of its own
			most := last + 1
			if s.kind == kBlock {
				most = len(raw)
			}
			cut := t.Intn(most + 1)
			if cut >= len(bytes.TrimRight(raw, "\n")) {
				return
			}
			bad := append([]byte{}, raw[:cut]...)
			if t.Bool() {
				bad = append(bad, make([]byte, len(raw)-cut)...)
			}
			if len(bad) == len(raw) && t.Bool() { // only some of it was not written, as when pages reach the disk out of order
				from := cut
				if t.Bool() { // one row, or from the middle of one
					starts := []int{0}
					for i, c := range raw[:last+1] {
						if c == '\n' {
							starts = append(starts, i+1)
						}
					}
					from = starts[t.Intn(len(starts))]
				}
				n := 1 + t.Intn(70)
				if t.Bool() {
					n = bytes.IndexByte(append(append([]byte{}, raw[from:]...), '\n'), '\n')
				}
				to := min(from+max(n, 1), len(raw))
				copy(bad, raw)
				clear(bad[from:to])
				t.Note("damage a file: bytes %d to %d of %d are zeros", from, to, len(raw))
			} else {
				t.Note("damage a file: %d of %d bytes remain, then %d zeros", cut, len(raw), len(bad)-cut)
			}
			if err := os.WriteFile(f, bad, 0600); err != nil {
				panic(err)
			}
			m := open(s.kind, s.dir)
			for _, k := range s.keys {
				has := m.has(k)
				got, ok := m.get(k)
				t.Check(has == ok, "has-get", "with a damaged file Has(%s) is %v but Get finds it: %v", k, has, ok)
				if ok && got != s.want[k] && s.maybe[k] == nil {
					t.Fail("different:"+kindName[s.kind], "a damaged file is read as another record of %s: %s, written was %s", k, shorten(got), shorten(s.want[k]))
				}
			}
			if err := os.WriteFile(f, raw, 0600); err != nil {
				panic(err)
			}
			faults++
		case 5:
			s.all("reading all")
		}
	})
	s.all("at the end")
	if reopens > 0 && len(s.want) > 1 || faults > 0 {
		t.NonTrivial()
	}
	t.Label("kind " + kindName[s.kind])
	if faults > 0 {
		t.Label("with faults")
	}
}

// shared: one writer, several readers of the same instance.
func shared(t *pbt.T) {
	kind := t.Intn(3)
	dir := filepath.Join(t.TempDir(), "records")
	m := open(kind, dir)
	n := 3 + t.Intn(20)
	type kv struct {
		k    core.HashT
		r    any
		line string
	}
	var ls []kv
	seen := map[core.HashT]bool{}
	for len(ls) < n {
		k := hash(t)
		if seen[k] {
			d := k.Data()
			d[0] = byte(len(ls))
			d[1] = 7
			k = model.T(d)
		}
		seen[k] = true
		r, line := record(t, kind)
		ls = append(ls, kv{k, r, line})
	}
	old := t.Intn(n) // written by an earlier instance
	for _, x := range ls[:old] {
		m.store(x.k, x.r)
	}
	m = open(kind, dir)
	t.Note("%s: %d records of before, %d new, 3 readers", kindName[kind], old, n-old)
	var mu sync.Mutex
	done := old // records written so far
	bad := make(chan string, 10)
	var wg sync.WaitGroup
	stop := make(chan bool)
	starts := t.Intn(n)
	for w := 0; w < 3; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := starts + w; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				at := i % n
				mu.Lock()
				d := done
				mu.Unlock()
				has := m.has(ls[at].k)
				if at < d && !has {
					bad <- fmt.Sprintf("the record of %s is written but not found", ls[at].k)
					return
				}
				if has {
					if got, ok := m.get(ls[at].k); !ok || got != ls[at].line {
						bad <- fmt.Sprintf("the record of %s is %s, written was %s", ls[at].k, shorten(got), shorten(ls[at].line))
						return
					}
				}
			}
		}()
	}
	for i := old; i < n; i++ {
		m.store(ls[i].k, ls[i].r)
		mu.Lock()
		done = i + 1
		mu.Unlock()
	}
	close(stop)
	wg.Wait()
	select {
	case b := <-bad:
		t.Fail("shared:"+kindName[kind], "while another goroutine writes: %s", b)
	default:
	}
	if n-old > 1 && old > 0 {
		t.NonTrivial()
	}
}

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{
		{Name: "sequence", Rule: "Random sequences of writes (new keys, known keys, keys differing in one bit), reads through any open instance, further instances over the " +
			"directory, writes failing after a drawn number of bytes (file size limit) followed by a new instance, and files cut or zeroed behind a drawn point or zeroed in one stretch or row; records of all " +
			"three kinds with extreme numbers and byte strings of all lengths. A reference map says what each key must give. Non-trivial: a later instance read at least two " +
			"records, or a fault was injected.",
			Quick: 6000, Thorough: 150000, Chunk: 500, Run: sequence},
		{Name: "shared", Rule: "One goroutine writes records into an instance over a directory with earlier records while three read: a written record is found at once, with its content. " +
			"Non-trivial: earlier and several new records.",
			Quick: 400, Thorough: 8000, Chunk: 100, Run: shared},
	})
}
