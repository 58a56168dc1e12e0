//go:build go1.25

package c27

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/queue"
	"github.com/levilutz/basiccoin/pkg/set"
	"github.com/levilutz/basiccoin/pkg/syncmap"
	"github.com/levilutz/basiccoin/pkg/syncqueue"
	"github.com/levilutz/basiccoin/pkg/util"
)

// roomy gives a slice with the values and spare capacity, filled behind its end.
func roomy(t *pbt.T, n int) (s, whole []int) {
	extra := []int{0, 1, 5}[t.Weighted(1, 1, 2)]
	whole = make([]int, n+extra)
	for i := range whole {
		if i < n {
			whole[i] = int(t.Draw(9))
		} else {
			whole[i] = -7
		}
	}
	return whole[:n], whole
}

func cp(s []int) []int { return append([]int{}, s...) }

func eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sorted(s []int) []int { s = cp(s); sort.Ints(s); return s }

type q interface {
	Push(...int)
	Pop() (int, bool)
	Peek() (int, bool)
	Size() int
}

func queues(t *pbt.T) {
	var x q
	var sq *syncqueue.SyncQueue[int]
	init, whole := roomy(t, t.Intn(4))
	model := cp(init)
	snap := cp(whole)
	if t.Bool() {
		sq = syncqueue.NewSyncQueue(init...)
		x = sq
	} else {
		x = queue.NewQueue(init...)
	}
	t.Note("sync: %v, starts with %v", sq != nil, init)
	closed := false
	pops := 0
	check := func() {
		want := len(model)
		if closed {
			want = 0
		}
		t.Check(x.Size() == want, "size", "size is %d, expected %d", x.Size(), want)
		v, ok := x.Peek()
		t.Check(ok == (want > 0), "peek-ok", "peek says %v with %d items", ok, want)
		if ok {
			t.Check(v == model[0], "peek", "peek gives %d, the first is %d", v, model[0])
		}
		if sq != nil {
			t.Check(sq.Closed() == closed, "closed", "closed is said to be %v", sq.Closed())
		}
		t.Check(eq(whole, snap), "argument", "using the queue changed the slice it was made from: %v, was %v", whole, snap)
	}
	check()
	t.Steps(0, 20, 60, func(int) {
		switch t.Weighted(4, 5, 1, 1) {
		case 0:
			items, w := roomy(t, t.Intn(5))
			ws := cp(w)
			t.Note("push %v", items)
			x.Push(items...)
			if !closed {
				model = append(model, items...)
			}
			t.Check(eq(w, ws), "argument", "pushing changed the slice pushed")
			for i := range w { // the caller reuses its slice
				w[i] = 99
			}
		case 1:
			v, ok := x.Pop()
			t.Note("pop: %d %v", v, ok)
			want := len(model) > 0 && !closed
			t.Check(ok == want, "pop-ok", "pop says %v with %d items, closed %v", ok, len(model), closed)
			if ok {
				t.Check(v == model[0], "pop", "pop gives %d, the first is %d", v, model[0])
				model = model[1:]
				if pops++; pops > 2 {
					t.NonTrivial()
				}
			}
		case 2:
			if len(whole) > 0 { // the caller reuses the slice the queue was made from
				i := t.Intn(len(whole))
				whole[i] = 50
				snap[i] = 50
				t.Note("caller overwrites its slice at %d", i)
			}
		case 3:
			if sq != nil && t.Chance(30) {
				t.Note("close")
				sq.Close()
				closed = true
			}
		}
		check()
	})
}

func sets(t *pbt.T) {
	type pair struct {
		s *set.Set[int]
		m map[int]bool
	}
	var ps []pair
	add := func(p pair) {
		if len(ps) < 5 {
			ps = append(ps, p)
		} else {
			ps[t.Intn(5)] = p
		}
	}
	add(pair{set.NewSet[int](), map[int]bool{}})
	check := func() {
		for i, p := range ps {
			t.Check(p.s.Size() == len(p.m), "size", "set %d has size %d, expected %d", i, p.s.Size(), len(p.m))
			var want []int
			for k := 0; k < 12; k++ {
				t.Check(p.s.Includes(k) == p.m[k], "includes", "set %d includes %d: %v", i, k, p.s.Includes(k))
				if p.m[k] {
					want = append(want, k)
				}
			}
			l := p.s.ToList()
			t.Check(eq(sorted(l), want), "list", "set %d lists %v, expected %v", i, sorted(l), want)
			for j := range l { // the list is the caller's
				l[j] = 11
			}
		}
	}
	t.Steps(1, 15, 50, func(int) {
		i := t.Intn(len(ps))
		p := ps[i]
		switch t.Weighted(5, 3, 2, 2, 2, 2, 1) {
		case 0:
			ks, w := roomy(t, t.Intn(4))
			ws := cp(w)
			t.Note("add to %d: %v", i, ks)
			p.s.Add(ks...)
			for _, k := range ks {
				p.m[k] = true
			}
			t.Check(eq(w, ws), "argument", "adding changed the slice given")
		case 1:
			k := int(t.Draw(9))
			got := p.s.Remove(k)
			t.Note("remove %d from %d: %v", k, i, got)
			t.Check(got == p.m[k], "remove", "removing %d says %v", k, got)
			delete(p.m, k)
		case 2:
			m := map[int]bool{}
			for k := range p.m {
				m[k] = true
			}
			t.Note("copy %d", i)
			add(pair{p.s.Copy(), m})
			t.NonTrivial()
		case 3:
			mask := t.Draw(1 << 9)
			t.Note("filter %d by %b", i, mask)
			calls := map[int]int{}
			p.s.Filter(func(k int) bool { calls[k]++; return mask>>k&1 == 1 })
			for k := range p.m {
				t.Check(calls[k] >= 1, "filter-skips", "the filter is not asked about %d", k)
				if mask>>k&1 == 0 {
					delete(p.m, k)
				}
			}
			t.NonTrivial()
		case 4:
			ks, _ := roomy(t, t.Intn(4))
			want := false
			for _, k := range ks {
				want = want || p.m[k]
			}
			t.Note("includes any of %v in %d", ks, i)
			t.Check(p.s.IncludesAny(ks...) == want, "includes-any", "including any of %v is said to be %v", ks, !want)
		case 5:
			j := t.Intn(len(ps))
			want := false
			for k := range p.m {
				want = want || ps[j].m[k]
			}
			t.Note("intersect %d %d", i, j)
			t.Check(p.s.HasIntersection(ps[j].s) == want, "intersection", "the intersection of %v and %v is said to be non-empty: %v", p.m, ps[j].m, !want)
		case 6:
			ks, w := roomy(t, t.Intn(6))
			m := map[int]bool{}
			for _, k := range ks {
				m[k] = true
			}
			t.Note("new set of %v", ks)
			add(pair{set.NewSetFromList(ks), m})
			for j := range w {
				w[j] = 10
			}
		}
		check()
	})
}

// large fills collections with up to some thousands of elements.
func large(t *pbt.T) {
	sq := syncqueue.NewSyncQueue[int]()
	pq := queue.NewQueue[int]()
	st := set.NewSet[int]()
	sm := syncmap.NewSyncMap[int, int]()
	var order []int
	in, vals := map[int]bool{}, map[int]int{}
	next := 0
	most := 0
	size := func() int {
		switch t.Weighted(2, 2, 1) {
		case 0:
			return t.Intn(40)
		case 1:
			return t.Intn(300)
		}
		return t.Intn(3000)
	}
	t.Steps(1, 10, 30, func(int) {
		n := size()
		switch t.Weighted(3, 3, 3, 2, 1, 2) {
		case 0:
			t.Note("push %d", n)
			if batch := t.Draw(3); batch == 0 {
				var ls []int
				for i := 0; i < n; i++ {
					ls = append(ls, next+i)
				}
				sq.Push(ls...)
				pq.Push(ls...)
			} else {
				for i := 0; i < n; i++ {
					sq.Push(next + i)
					pq.Push(next + i)
				}
			}
			for i := 0; i < n; i++ {
				order = append(order, next+i)
			}
			next += n
		case 1:
			t.Note("pop %d of %d", n, len(order))
			for i := 0; i < n; i++ {
				a, aok := sq.Pop()
				b, bok := pq.Pop()
				t.Check(aok == (len(order) > 0) && bok == aok, "large-pop-ok", "pops say %v and %v with %d items", aok, bok, len(order))
				if !aok {
					break
				}
				t.Check(a == order[0] && b == order[0], "large-pop", "pops give %d and %d, the first of %d is %d", a, b, len(order), order[0])
				order = order[1:]
			}
		case 2:
			from := t.Intn(3000)
			t.Note("add %d", n)
			for i := 0; i < n; i++ {
				st.Add(from + i)
				in[from+i] = true
				sm.Store(from+i, next+i)
				vals[from+i] = next + i
			}
		case 3:
			from := t.Intn(3000)
			t.Note("remove %d", n)
			for i := 0; i < n; i++ {
				t.Check(st.Remove(from+i) == in[from+i], "large-remove", "removing %d of a set of %d says %v", from+i, len(in), !in[from+i])
				delete(in, from+i)
			}
		case 4:
			m := 2 + t.Intn(5)
			t.Note("filter")
			st.Filter(func(k int) bool { return k%m != 0 })
			for k := range in {
				if k%m == 0 {
					delete(in, k)
				}
			}
		case 5:
			c := st.Copy()
			t.Check(c.Size() == len(in), "large-copy", "a copy of a set of %d has %d", len(in), c.Size())
			if t.Bool() {
				st = c
			} else {
				c.Add(-1)
				c.Remove(5)
			}
		}
		most = max(most, len(order), len(in))
		t.Check(sq.Size() == len(order) && pq.Size() == len(order), "large-size", "queues of %d and %d items, expected %d", sq.Size(), pq.Size(), len(order))
		t.Check(st.Size() == len(in), "large-size", "a set of %d, expected %d", st.Size(), len(in))
		l := sorted(st.ToList())
		var want []int
		for k := range in {
			want = append(want, k)
		}
		t.Check(eq(l, sorted(want)), "large-list", "a set of %d lists %d other elements", len(in), len(l))
		for i := 0; i < 60; i++ {
			k := t.Intn(6000)
			t.Check(st.Includes(k) == in[k], "large-includes", "a set of %d includes %d: %v", len(in), k, !in[k])
			v, ok := vals[k]
			t.Check(sm.Has(k) == ok, "large-has", "a map of %d has %d: %v", len(vals), k, !ok)
			if ok {
				t.Check(sm.Get(k) == v, "large-get", "a map of %d gives %d for %d, expected %d", len(vals), sm.Get(k), k, v)
			}
		}
	})
	if most > 100 {
		t.NonTrivial()
	}
}

func panics(f func()) (yes bool) {
	defer func() { yes = recover() != nil }()
	f()
	return false
}

func maps(t *pbt.T) {
	type val struct{ A, B int }
	sm := syncmap.NewSyncMap[int, val]()
	m := map[int]val{}
	over := 0
	t.Steps(1, 15, 50, func(int) {
		k := int(t.Draw(6))
		if t.Bool() {
			v := val{int(t.Draw(100)), int(t.Draw(3))}
			t.Note("store %d %v", k, v)
			if _, ok := m[k]; ok {
				over++
			}
			sm.Store(k, v)
			m[k] = v
		}
		for k := 0; k < 6; k++ {
			v, ok := m[k]
			t.Check(sm.Has(k) == ok, "has", "having %d is said to be %v", k, sm.Has(k))
			if ok {
				t.Check(sm.Get(k) == v, "get", "%d gives %v, stored %v", k, sm.Get(k), v)
			} else {
				t.Check(panics(func() { sm.Get(k) }), "get-absent", "getting an absent key gives a value")
			}
		}
	})
	if over > 0 {
		t.NonTrivial()
	}
}

func helpers(t *pbt.T) {
	ls, w := roomy(t, t.Intn(7))
	ws := cp(w)
	unchanged := func(f string) {
		t.Check(eq(w, ws), "altered:"+f, "%s changed its argument (or what lies behind it): %v, was %v", f, w, ws)
	}
	scribble := func(out []int) {
		for i := range out {
			out[i] = 77
		}
	}
	if len(ls) > 1 {
		t.NonTrivial()
	}
	switch t.Intn(7) {
	case 0:
		n := t.Range(0, 4)
		if t.Bool() {
			n = 1
		}
		items, iw := roomy(t, n)
		is := cp(iw)
		t.Note("prepend %v cap %d, items %v", ls, cap(ls), items)
		want := cp(ls)
		for _, it := range items {
			want = append([]int{it}, want...)
		}
		got := util.Prepend(ls, items...)
		t.Check(eq(got, want), "prepend", "prepending %v to %v gives %v", items, cp(ws[:len(ls)]), got)
		unchanged("Prepend")
		t.Check(eq(iw, is), "altered:Prepend-items", "Prepend changed its items")
		if len(items) > 0 {
			scribble(got)
			unchanged("changing the result of Prepend")
		}
	case 1:
		t.Note("reverse %v", ls)
		want := make([]int, len(ls))
		for i, v := range ls {
			want[len(ls)-1-i] = v
		}
		got := util.Reverse(ls)
		t.Check(eq(got, want), "reverse", "reversing %v gives %v", ls, got)
		unchanged("Reverse")
		scribble(got)
		unchanged("changing the result of Reverse")
	case 2:
		t.Note("copy list %v", ls)
		got := util.CopyList(ls)
		t.Check(eq(got, ls), "copy-list", "copying %v gives %v", ls, got)
		scribble(got)
		got = append(got, 5)
		unchanged("changing the result of CopyList")
	case 3:
		m := map[int]int{}
		for i, v := range ls {
			m[v] = i
		}
		t.Note("copy map %v", m)
		got := util.CopyMap(m)
		t.Check(fmt.Sprint(got) == fmt.Sprint(m), "copy-map", "copying %v gives %v", m, got)
		s := fmt.Sprint(m)
		got[100] = 1
		for k := range got {
			got[k]++
		}
		delete(got, 0)
		t.Check(fmt.Sprint(m) == s, "altered:CopyMap", "changing the copy changed the map")
	case 4:
		m := map[int]int{}
		var want []int
		for i, v := range ls {
			if _, ok := m[v]; !ok {
				want = append(want, v)
			}
			m[v] = i
		}
		t.Note("keys of %v", m)
		s := fmt.Sprint(m)
		got := util.MapKeys(m)
		t.Check(eq(sorted(got), sorted(want)), "map-keys", "the keys of %v are said to be %v", m, got)
		t.Check(fmt.Sprint(m) == s, "altered:MapKeys", "MapKeys changed the map")
	case 5:
		n := t.Intn(5)
		in := make([][]int, n)
		var wholes, snaps [][]int
		var want []int
		for i := range in {
			var w []int
			in[i], w = roomy(t, t.Intn(4))
			wholes = append(wholes, w)
			snaps = append(snaps, cp(w))
			want = append(want, in[i]...)
		}
		t.Note("flatten %v", in)
		got := util.FlattenLists(in)
		t.Check(eq(got, want), "flatten", "flattening %v gives %v", in, got)
		scribble(got)
		got = append(got, 5)
		for i := range wholes {
			t.Check(eq(wholes[i], snaps[i]), "altered:FlattenLists", "FlattenLists changed its argument %v to %v", snaps[i], wholes[i])
		}
	case 6:
		kind := t.Intn(3)
		t.Note("write to channel, kind %d", kind)
		switch kind {
		case 0, 1:
			ch := make(chan int, kind)
			util.WriteChIfPossible(ch, 42)
			select {
			case v, ok := <-ch:
				t.Check(ok && v == 42, "channel", "the channel gives %d %v", v, ok)
			case <-time.After(20 * time.Second):
				t.Fail("channel", "nothing arrives on the channel")
			}
		case 2:
			ch := make(chan int)
			close(ch)
			util.WriteChIfPossible(ch, 42)
			time.Sleep(time.Millisecond)
		}
	}
}

// concurrently runs the functions at once, with drawn yields between operations.
func concurrently(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		wg.Add(1)
		go func() { defer wg.Done(); <-start; f() }()
	}
	close(start)
	wg.Wait()
}

func yields(n uint64) {
	for i := uint64(0); i < n; i++ {
		runtime.Gosched()
	}
}

type tagged struct{ by, n, batch, of int }

func sharedQueue(t *pbt.T) {
	np, nc := t.Range(1, 4), t.Range(1, 3)
	sq := syncqueue.NewSyncQueue[tagged]()
	var fs []func()
	total := 0
	for p := 0; p < np; p++ {
		var plan []int
		var ys []uint64
		t.Steps(1, 10, 30, func(int) { plan = append(plan, t.Range(1, 4)); ys = append(ys, t.Draw(3)) })
		for _, k := range plan {
			total += k
		}
		fs = append(fs, func() {
			n := 0
			for i, k := range plan {
				items := make([]tagged, k)
				for j := range items {
					items[j] = tagged{p, n, j, k}
					n++
				}
				sq.Push(items...)
				yields(ys[i])
			}
		})
	}
	popped := make([][]tagged, nc)
	var stop sync.WaitGroup
	done := make(chan struct{})
	stop.Add(np)
	for i := range fs {
		f := fs[i]
		fs[i] = func() { defer stop.Done(); f() }
	}
	go func() { stop.Wait(); close(done) }()
	closer := t.Chance(20)
	for c := 0; c < nc; c++ {
		peek := t.Bool()
		fs = append(fs, func() {
			for {
				over := false
				select {
				case <-done:
					over = true
				default:
				}
				if peek {
					sq.Peek()
					sq.Size()
				}
				v, ok := sq.Pop()
				if ok {
					popped[c] = append(popped[c], v)
				} else if over {
					return
				} else {
					runtime.Gosched()
				}
			}
		})
	}
	if closer {
		y := t.Draw(200)
		fs = append(fs, func() { yields(y); sq.Close() })
	}
	t.Note("%d producers, %d consumers, %d items, closing %v", np, nc, total, closer)
	concurrently(fs...)
	seen := map[[2]int]bool{}
	for c := range popped {
		last := map[int]int{}
		for _, v := range popped[c] {
			k := [2]int{v.by, v.n}
			t.Check(!seen[k], "popped-twice", "item %d of producer %d is popped twice", v.n, v.by)
			seen[k] = true
			if l, ok := last[v.by]; ok {
				t.Check(v.n > l, "order", "consumer %d pops item %d of producer %d after item %d", c, v.n, v.by, l)
			}
			last[v.by] = v.n
		}
	}
	if !closer {
		t.Check(len(seen) == total, "lost", "%d of %d items are popped", len(seen), total)
	} else {
		_, ok := sq.Pop()
		t.Check(!ok && sq.Size() == 0 && sq.Closed(), "closed-pop", "a closed queue still has items")
	}
	if np+nc > 2 {
		t.NonTrivial()
	}
}

func sharedMap(t *pbt.T) {
	sm := syncmap.NewSyncMap[int, [2]int]()
	nw, nr := t.Range(1, 4), t.Range(1, 3)
	const nk = 6
	var mu sync.Mutex
	bad := ""
	fail := func(format string, a ...any) {
		mu.Lock()
		bad = fmt.Sprintf(format, a...)
		mu.Unlock()
	}
	lasts := make([]map[int]int, nw)
	var fs []func()
	writes := 0
	for w := 0; w < nw; w++ {
		var ks []int
		t.Steps(1, 15, 40, func(int) { ks = append(ks, t.Intn(nk)) })
		writes += len(ks)
		lasts[w] = map[int]int{}
		fs = append(fs, func() {
			for i, k := range ks {
				sm.Store(k*nw+w, [2]int{w, i}) // own keys
				sm.Store(1000+k, [2]int{w, i}) // shared keys
				lasts[w][k] = i
				if got := sm.Get(k*nw + w); got != [2]int{w, i} {
					fail("a writer's own key gives %v after storing %d", got, i)
				}
			}
		})
	}
	for r := 0; r < nr; r++ {
		n := t.Range(10, 60)
		fs = append(fs, func() {
			seen := map[int]int{}
			for i := 0; i < n; i++ {
				k := i % nk
				for w := 0; w < nw; w++ {
					key := k*nw + w
					has := sm.Has(key)
					if !has && seen[key] > 0 {
						fail("a key vanished")
					}
					if has {
						v := sm.Get(key)
						if v[0] != w || v[1]+1 < seen[key] {
							fail("key of writer %d goes back from %d to %v", w, seen[key]-1, v)
						}
						seen[key] = v[1] + 1
					}
				}
				if sm.Has(1000 + k) {
					sm.Get(1000 + k)
				}
				runtime.Gosched()
			}
		})
	}
	t.Note("%d writers, %d readers, %d writes", nw, nr, writes)
	concurrently(fs...)
	t.Check(bad == "", "map-value", "%s", bad)
	for w := range lasts {
		for k, i := range lasts[w] {
			t.Check(sm.Get(k*nw+w) == [2]int{w, i}, "map-last", "the last value stored is not kept")
		}
	}
	if nw+nr > 2 {
		t.NonTrivial()
	}
}

func TestWorker(t *testing.T) {
	const st = " against a model; arguments and results are also modified afterwards to show sharing."
	pbt.Main(t, []pbt.Arm{
		{Name: "queues", Rule: "Operation sequences on a plain or shared queue" + st + " Non-trivial: three items popped.", Quick: 6000, Thorough: 100000, Run: queues},
		{Name: "sets", Rule: "Operation sequences on up to five sets" + st + " Non-trivial: a copy or filter.", Quick: 4000, Thorough: 60000, Run: sets},
		{Name: "large", Rule: "Queues, sets and maps of up to some thousands of elements against models. Non-trivial: more than 100 at once.",
			Quick: 300, Thorough: 6000, Run: large},
		{Name: "maps", Rule: "Operation sequences on a shared map against a model. Non-trivial: a value overwritten.", Quick: 3000, Thorough: 40000, Run: maps},
		{Name: "helpers", Rule: "Slice and map helpers on slices with and without spare capacity" + st + " Non-trivial: more than one element.", Quick: 15000, Thorough: 300000, Run: helpers},
		{Name: "shared-queue", Rule: "1-4 producers, 1-3 consumers, sometimes a closing, with drawn yields, under the race detector: nothing lost, doubled or reordered. Non-trivial: more than two goroutines.",
			Quick: 1500, Thorough: 30000, Run: sharedQueue},
		{Name: "shared-map", Rule: "1-4 writers, 1-3 readers under the race detector: values only go forward, the last one stays. Non-trivial: more than two goroutines.",
			Quick: 800, Thorough: 15000, Run: sharedMap},
	})
}
