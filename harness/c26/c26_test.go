//go:build go1.25

package c26

import (
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"weak"

	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/topic"
)

type msg struct{ by, n, batch, of int }

// sub is a subscription of either kind with what the model says it still holds.
type sub struct {
	q      topic.Sub[msg]
	c      *topic.SubCh[msg]
	want   []msg
	closed bool
}

// within runs f and fails if it takes long (of the bubble's clock).
func within(t *pbt.T, d time.Duration, key, what string, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			t.Fail(key, "%s panics: %v", what, p)
		}
	case <-time.After(d):
		t.Fail(key, "%s does not return", what)
	}
}

func deliveries(t *pbt.T) {
	tp := topic.NewTopic[msg]()
	var subs []*sub
	n, got := 0, 0
	pick := func() *sub {
		if len(subs) == 0 {
			return nil
		}
		return subs[t.Intn(len(subs))]
	}
	read := func(i int, s *sub) {
		if s.q != nil {
			want := s.want
			if s.closed {
				want = nil
			}
			t.Check(s.q.Size() == len(want), "size", "subscription %d holds %d messages, expected %d", i, s.q.Size(), len(want))
			v, ok := s.q.Peek()
			t.Check(ok == (len(want) > 0), "peek", "peek at subscription %d says %v with %d messages", i, ok, len(want))
			t.Check(!ok || v == want[0], "peek", "peek at subscription %d gives message %d, expected %d", i, v.n, ifany(want))
			v, ok = s.q.Pop()
			t.Check(ok == (len(want) > 0), "pop", "pop from subscription %d says %v with %d messages", i, ok, len(want))
			if ok {
				t.Check(v == want[0], "order", "subscription %d gives message %d, expected %d", i, v.n, want[0].n)
				s.want = s.want[1:]
				got++
			}
			return
		}
		if s.closed {
			select {
			case v, ok := <-s.c.C:
				t.Check(!ok, "closed-delivers", "channel subscription %d delivers message %d after closing", i, v.n)
			case <-time.After(5 * time.Second):
				t.Fail("closed-holds", "a receiver on closed channel subscription %d is not released", i)
			}
			return
		}
		select {
		case v, ok := <-s.c.C:
			t.Check(ok, "channel-closed", "the channel of open subscription %d is closed", i)
			t.Check(len(s.want) > 0, "extra", "channel subscription %d delivers message %d, expected none", i, v.n)
			t.Check(v == s.want[0], "order", "channel subscription %d gives message %d, expected %d", i, v.n, s.want[0].n)
			s.want = s.want[1:]
			got++
		case <-time.After(5 * time.Second):
			t.Check(len(s.want) == 0, "not-delivered", "channel subscription %d does not deliver message %d", i, ifany(s.want))
		}
	}
	t.Steps(1, 30, 80, func(int) {
		switch t.Weighted(5, 2, 2, 7, 2, 1, 2) {
		case 0:
			var ms []msg
			k := t.Weighted(1, 6, 2, 1)
			if t.Draw(80) == 79 && n < 6000 { // many at once
				k = 50 + t.Intn(3000)
			}
			for i := 0; i < k; i++ {
				ms = append(ms, msg{n: n, batch: i, of: k})
				n++
			}
			t.Note("publish %d messages from %d", k, n-k)
			within(t, time.Minute, "publish-blocks", "publishing", func() { tp.Pub(ms...) })
			for i := range ms {
				for _, s := range subs {
					if !s.closed {
						s.want = append(s.want, ms[i])
					}
				}
			}
			for i := range ms { // the caller reuses its slice
				ms[i].n = -1
			}
		case 1:
			if len(subs) < 8 {
				t.Note("subscription %d (queue)", len(subs))
				subs = append(subs, &sub{q: tp.Sub()})
			}
		case 2:
			if len(subs) < 8 {
				t.Note("subscription %d (channel)", len(subs))
				subs = append(subs, &sub{c: tp.SubCh()})
			}
		case 3:
			if s := pick(); s != nil {
				for i := range subs {
					if subs[i] == s {
						t.Note("read %d", i)
						read(i, s)
					}
				}
			}
		case 4:
			if s := pick(); s != nil && (!s.closed || s.q != nil) {
				for i := range subs {
					if subs[i] == s {
						t.Note("close %d with %d messages", i, len(s.want))
					}
				}
				within(t, time.Minute, "close-blocks", "closing", func() {
					if s.q != nil {
						s.q.Close()
					} else {
						s.c.Close()
					}
				})
				s.closed = true
				if len(s.want) > 0 {
					t.NonTrivial()
				}
			}
		case 5:
			t.Note("16 s pass")
			time.Sleep(16 * time.Second)
		case 6:
			d := time.Duration(t.Draw(60)) * time.Millisecond
			time.Sleep(d)
		}
	})
	// everything left is delivered, and nothing else
	for i, s := range subs {
		for len(s.want) > 0 && !s.closed {
			read(i, s)
		}
		read(i, s)
	}
	for _, s := range subs {
		if !s.closed && s.c != nil {
			within(t, time.Minute, "close-blocks", "closing", s.c.Close)
		}
	}
	if got > 3 && len(subs) > 1 {
		t.NonTrivial()
	}
}

func ifany(ms []msg) int {
	if len(ms) == 0 {
		return -1
	}
	return ms[0].n
}

// reader collects one subscription of the concurrent arm.
type reader struct {
	early     bool
	isCh      bool
	closeAt   int   // close after this many messages, -1 never
	yieldSub  int   // subscribe late, after this many yields
	started   []int // publications begun, per publisher, when the subscription existed
	got       []msg
	afterward string
}

func concurrent(t *pbt.T) {
	tp := topic.NewTopic[msg]()
	np, nr := t.Range(1, 4), t.Range(1, 5)
	var started, total [4]atomic.Int64
	plans := make([][]int, np)
	pause := make([][]uint64, np)
	for p := range plans {
		t.Steps(1, 12, 40, func(int) {
			plans[p] = append(plans[p], t.Range(1, 3))
			pause[p] = append(pause[p], t.Draw(4))
		})
	}
	rs := make([]*reader, nr)
	closes, chans, late := 0, 0, 0
	for i := range rs {
		r := &reader{early: t.Chance(60), isCh: t.Chance(40), closeAt: -1}
		if t.Chance(25) {
			r.closeAt = t.Intn(12)
			closes++
		}
		if r.isCh {
			chans++
		}
		if !r.early {
			r.yieldSub = t.Intn(60)
			late++
		}
		rs[i] = r
	}
	t.Note("%d publishers with %v publications, %d subscriptions: %d channels, %d late, %d closing", np, lens(plans), nr, chans, late, closes)
	var pubs, all sync.WaitGroup
	start := make(chan struct{})
	over := make(chan struct{})
	for p := range plans {
		pubs.Add(1)
		go func() {
			defer pubs.Done()
			<-start
			n := 0
			for i, k := range plans[p] {
				ms := make([]msg, k)
				for j := range ms {
					ms[j] = msg{p, n, j, k}
					n++
				}
				started[p].Add(int64(k))
				tp.Pub(ms...)
				total[p].Add(int64(k))
				for y := uint64(0); y < pause[p][i]; y++ {
					runtime.Gosched()
				}
			}
		}()
	}
	for _, r := range rs {
		var q topic.Sub[msg]
		var c *topic.SubCh[msg]
		mk := func() {
			if r.isCh {
				c = tp.SubCh()
			} else {
				q = tp.Sub()
			}
			r.started = make([]int, np)
			for p := range r.started {
				r.started[p] = int(started[p].Load())
			}
		}
		if r.early {
			mk()
			for p := range r.started {
				r.started[p] = 0
			}
		}
		all.Add(1)
		go func() {
			defer all.Done()
			<-start
			if !r.early {
				for i := 0; i < r.yieldSub; i++ {
					runtime.Gosched()
				}
				mk()
			}
			if r.isCh {
				r.readCh(c, over)
			} else {
				r.readQ(q, over)
			}
		}()
	}
	close(start)
	wait(t, &pubs, "publish-blocks", "publishing")
	close(over)
	wait(t, &all, "reader-blocks", "reading or closing")
	sums := make([]int, np)
	for p := range sums {
		sums[p] = int(total[p].Load())
	}
	for i, r := range rs {
		kind := "queue"
		if r.isCh {
			kind = "channel"
		}
		t.Check(r.afterward == "", "closed-delivers", "%s subscription %d: %s", kind, i, r.afterward)
		next := map[int]int{}
		first := map[int]int{}
		for _, m := range r.got {
			if n, ok := next[m.by]; ok {
				t.Check(m.n >= n, "twice-or-order", "%s subscription %d gets message %d of publisher %d after message %d", kind, i, m.n, m.by, n-1)
				t.Check(m.n == n, "lost", "%s subscription %d misses message %d of publisher %d", kind, i, n, m.by)
			} else {
				first[m.by] = m.n
			}
			next[m.by] = m.n + 1
		}
		for p := range sums {
			f, any := first[p]
			if any {
				t.Check(f <= r.started[p], "lost-first", "%s subscription %d misses message %d of publisher %d, published while it existed", kind, i, r.started[p], p)
			}
			if r.closeAt < 0 {
				if any {
					t.Check(next[p] == sums[p], "lost-last", "%s subscription %d gets %d of %d messages of publisher %d", kind, i, next[p], sums[p], p)
				} else {
					t.Check(r.started[p] >= sums[p], "lost-all", "%s subscription %d gets no message of publisher %d, %d were published while it existed", kind, i, p, sums[p]-r.started[p])
				}
			}
		}
	}
	if np+nr > 2 {
		t.NonTrivial()
	}
}

func lens(p [][]int) []int {
	var out []int
	for _, x := range p {
		out = append(out, len(x))
	}
	return out
}

func wait(t *pbt.T, wg *sync.WaitGroup, key, what string) {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		t.Fail(key, "%s does not end", what)
	}
}

func (r *reader) readQ(q topic.Sub[msg], over chan struct{}) {
	for {
		if r.closeAt >= 0 && len(r.got) >= r.closeAt {
			q.Close()
			if _, ok := q.Pop(); ok || q.Size() != 0 {
				r.afterward = "has messages after closing"
			}
			return
		}
		last := false
		select {
		case <-over:
			last = true
		default:
		}
		if m, ok := q.Pop(); ok {
			r.got = append(r.got, m)
		} else if last {
			return
		} else {
			runtime.Gosched()
		}
	}
}

func (r *reader) readCh(c *topic.SubCh[msg], over chan struct{}) {
	quiet := time.Duration(0)
	for {
		if r.closeAt >= 0 && len(r.got) >= r.closeAt {
			c.Close()
			select {
			case _, ok := <-c.C:
				if ok {
					r.afterward = "delivers a message after closing"
				}
			case <-time.After(20 * time.Second):
				r.afterward = "does not release its receiver after closing"
			}
			return
		}
		select {
		case m, ok := <-c.C:
			if !ok {
				r.afterward = "the channel is closed although nobody closed it"
				return
			}
			r.got = append(r.got, m)
			quiet = 0
		case <-time.After(50 * time.Millisecond):
			select {
			case <-over:
				// all published: wait until surely nothing more comes
				if quiet += 50 * time.Millisecond; quiet >= 400*time.Millisecond {
					c.Close()
					return
				}
			default:
			}
		}
	}
}

type load struct {
	n    int
	body [256]byte
}

// holder is a subscription of the releases arm.
type holder struct {
	q    topic.Sub[*load]
	c    *topic.SubCh[*load]
	left []int // messages it got and that were not read
}

// releases: what no open subscription waits to deliver can be collected.
func releases(t *pbt.T) {
	tp := topic.NewTopic[*load]()
	var msgs []weak.Pointer[load]
	var hs []*holder
	var gone []weak.Pointer[byte] // closed queue subscriptions
	read := map[int]bool{}        // messages ever taken off: a queue may keep their slot for a while
	closed, unread := 0, 0
	t.Steps(1, 16, 40, func(int) {
		switch t.Weighted(6, 3, 3, 4, 3, 1) {
		case 0:
			k := t.Range(1, 4)
			t.Note("publish %d messages from %d to %d subscriptions", k, len(msgs), len(hs))
			var out []*load
			for i := 0; i < k; i++ {
				m := &load{n: len(msgs)}
				out = append(out, m)
				msgs = append(msgs, weak.Make(m))
				for _, h := range hs {
					h.left = append(h.left, m.n)
				}
			}
			tp.Pub(out...)
		case 1:
			if len(hs) < 6 {
				t.Note("subscribe (queue)")
				hs = append(hs, &holder{q: tp.Sub()})
			}
		case 2:
			if len(hs) < 6 {
				t.Note("subscribe (channel)")
				hs = append(hs, &holder{c: tp.SubCh()})
			}
		case 3:
			if len(hs) == 0 {
				return
			}
			i := t.Intn(len(hs))
			h := hs[i]
			if len(h.left) == 0 {
				return
			}
			t.Note("read message %d from %d", h.left[0], i)
			var m *load
			if h.q != nil {
				m, _ = h.q.Pop()
			} else {
				select {
				case m = <-h.c.C:
				case <-time.After(5 * time.Second):
				}
			}
			t.Check(m != nil && m.n == h.left[0], "order", "subscription %d does not give message %d", i, h.left[0])
			read[m.n] = true
			h.left = h.left[1:]
		case 4:
			if len(hs) == 0 {
				return
			}
			i := t.Intn(len(hs))
			h := hs[i]
			t.Note("close %d with %d messages and drop it", i, len(h.left))
			within(t, time.Minute, "close-blocks", "closing", func() {
				if h.q != nil {
					h.q.Close()
				} else {
					h.c.Close()
				}
			})
			closed++
			unread += len(h.left)
			if v := reflect.ValueOf(h.q); v.Kind() == reflect.Pointer {
				gone = append(gone, weak.Make((*byte)(v.UnsafePointer())))
			}
			h.q, h.c = nil, nil
			hs = append(hs[:i:i], hs[i+1:]...)
		case 5:
			t.Note("16 s pass")
			time.Sleep(16 * time.Second)
		}
	})
	time.Sleep(2 * time.Minute) // past the topic's clean-up
	synctest.Wait()
	runtime.GC()
	runtime.GC()
	held := map[int]bool{}
	for _, h := range hs {
		for _, n := range h.left {
			held[n] = true
		}
	}
	free := 0
	for n, w := range msgs {
		if held[n] {
			t.Check(w.Value() != nil, "collected", "message %d is gone although a subscription waits to deliver it", n)
		} else if !read[n] {
			free++
			t.Check(w.Value() == nil, "kept", "message %d is kept although every subscription that had it is closed", n)
		}
	}
	for _, w := range gone {
		t.Check(w.Value() == nil, "kept-closed", "the topic keeps a subscription closed two minutes ago")
	}
	for _, h := range hs {
		runtime.KeepAlive(h)
		if h.c != nil {
			within(t, time.Minute, "close-blocks", "closing", h.c.Close)
		}
	}
	runtime.KeepAlive(tp)
	if closed > 0 && unread > 0 && free > 0 {
		t.NonTrivial()
	}
}

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{
		{Name: "deliveries", Rule: "Sequences of publishing, subscribing (queue and channel), reading, closing and passing of time (fake clock, over the clean-up interval) against a model with " +
			"one list per subscription. Non-trivial: more than three deliveries over more than one subscription, or closing one that has messages.",
			Quick: 1200, Thorough: 20000, Chunk: 60, Bubble: true, Run: deliveries},
		{Name: "releases", Rule: "Publishing, subscribing, reading and closing with messages unread; then, after the clean-up interval (fake clock) and a collection, messages no open subscription waits to deliver must be " +
			"collectable (weak pointers), closed queue subscriptions too, and the others still there. Non-trivial: a closed subscription had unread messages and some message is to be collectable.",
			Quick: 400, Thorough: 8000, Chunk: 60, Bubble: true, Run: releases},
		{Name: "concurrent", Rule: "1-4 publishers, 1-5 subscriptions (queue, channel, early, late, closing midway) at once under the race detector; each gets every message published while it existed once and in order. " +
			"Non-trivial: more than two parties.",
			Quick: 1000, Thorough: 20000, Chunk: 100, Par: 8, Retry: true, StallS: 120, Run: concurrent},
	})
}
