//go:build go1.25

package c19

import (
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/peer"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/history"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
	"github.com/levilutz/basiccoin/internal/zverif/wire"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
	"github.com/levilutz/basiccoin/pkg/topic"
)

const patience = 15 * time.Second

func short(h core.HashT) string { return h.String()[:8] }

// side is one end: a real peer on its own bus and inventory.
type side struct {
	id   string
	bus  *bus.Bus
	inv  *inv.Inv
	p    *peer.Peer
	ann  topic.Sub[bus.PeerAnnouncedAddrEvent]
	recv topic.Sub[bus.PeersReceivedEvent]
	reqs topic.Sub[bus.PeersRequestedEvent]
	txs  topic.Sub[bus.CandidateTxEvent]
	hds  topic.Sub[bus.CandidateHeadEvent]
	cls  topic.Sub[bus.PeerClosingEvent]
	has  map[core.HashT]bool
	mu   sync.Mutex
	got  map[string]int
	want map[string]int
	wide []bus.CandidateHeadEvent
}

func newSide(p core.Params, id string) *side {
	s := &side{id: id, bus: bus.NewBus(), inv: inv.NewInv(p, nil), has: map[core.HashT]bool{}, got: map[string]int{}, want: map[string]int{}}
	s.ann, s.recv, s.reqs = s.bus.PeerAnnouncedAddr.Sub(), s.bus.PeersReceived.Sub(), s.bus.PeersRequested.Sub()
	s.txs, s.hds, s.cls = s.bus.CandidateTx.Sub(), s.bus.CandidateHead.Sub(), s.bus.PeerClosing.Sub()
	return s
}

func addrList(m map[string]string) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(ks)
	return fmt.Sprintf("list of %d addresses %s", len(m), trim(strings.Join(ks, " ")))
}

func trim(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%s… (%d, %x)", s[:120], len(s), model.BytesHash([]byte(s)))
	}
	return s
}

func annLine(from, addr string) string {
	return fmt.Sprintf("announcement %s by %s", trim(fmt.Sprintf("%q", addr)), trim(fmt.Sprintf("%q", from)))
}
func reqLine(from string) string { return "address request by " + trim(fmt.Sprintf("%q", from)) }
func txLine(tx core.Tx) string   { return "transaction " + short(model.Tid(tx)) }

// collect takes in what arrived.
func (s *side) collect() {
	for e, ok := s.ann.Pop(); ok; e, ok = s.ann.Pop() {
		s.got[annLine(e.PeerRuntimeId, e.Addr)]++
	}
	for e, ok := s.recv.Pop(); ok; e, ok = s.recv.Pop() {
		s.got[addrList(e.PeerAddrs)]++
	}
	for e, ok := s.reqs.Pop(); ok; e, ok = s.reqs.Pop() {
		s.got[reqLine(e.PeerRuntimeId)]++
	}
	for e, ok := s.txs.Pop(); ok; e, ok = s.txs.Pop() {
		s.got[txLine(e.Tx)]++
	}
	for e, ok := s.hds.Pop(); ok; e, ok = s.hds.Pop() {
		s.got["a synced chain"]++
		s.wide = append(s.wide, e)
	}
}

// pending is what did not arrive yet, or too often.
func (s *side) diff() (missing, extra []string) {
	for k, n := range s.want {
		if d := n - s.got[k]; d > 0 {
			missing = append(missing, fmt.Sprintf("%s (%d of %d)", k, s.got[k], n))
		}
	}
	for k, n := range s.got {
		if d := n - s.want[k]; d > 0 {
			extra = append(extra, fmt.Sprintf("%s (%d, not %d)", k, n, s.want[k]))
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	return
}

// name draws a runtime id or address.
func name(t *pbt.T, base string) string {
	switch t.Weighted(6, 1, 1, 1) {
	case 1:
		return base + string(t.Bytes(t.Range(1, 40)))
	case 2:
		return base + strings.Repeat("x", t.Range(100, 60000))
	case 3:
		return base + "cmd:close"
	}
	return base
}

// act is something a side is made to do at a moment.
type act struct {
	at   time.Duration
	line string
	do   func()
}

type world struct {
	t     *pbt.T
	h     *history.H
	heads []*model.Block
	free  []core.Tx
	n     int
}

// store puts a chain into an inventory.
func (w *world) store(s *side, b *model.Block) {
	w.h.N = model.NewNode(w.h.S.P, rules.Now)
	e := w.h.Segment(b)
	for _, tx := range e.Txs {
		if !s.inv.HasTx(model.Tid(tx)) && s.inv.StoreTx(tx) != nil {
			w.t.Discard()
		}
	}
	for _, m := range e.Merkles {
		if !s.inv.HasMerkle(model.Mid(m)) && s.inv.StoreMerkle(m) != nil {
			w.t.Discard()
		}
	}
	for _, x := range e.Blocks {
		if !s.inv.HasBlock(model.Bid(x)) && s.inv.StoreBlock(x) != nil {
			w.t.Discard()
		}
	}
}

// events draws what s does; to is the other side.
func (w *world) events(s, to *side, syncs bool) []act {
	t := w.t
	var out []act
	burst := time.Duration(0)
	for range t.Weighted(1, 2, 3, 3, 3, 2, 2, 1, 1, 1, 1) {
		if t.Intn(2) == 1 {
			burst = time.Duration(t.Intn(160)) * time.Millisecond
		}
		at := burst + time.Duration(t.Intn(4)*t.Intn(8))*time.Millisecond
		target, mine := to.id, true
		if t.Intn(4) == 3 {
			target = pbt.Pick(t, []string{"", s.id, "somebody", to.id + "x", to.id[:len(to.id)-1]})
			mine = target == to.id
		}
		who := map[bool]string{true: "", false: " (for somebody else)"}[mine]
		w.n++
		switch t.Weighted(4, 3, 2, 4, map[bool]int{true: 3}[syncs], 1) {
		case 0:
			addr := name(t, fmt.Sprintf("10.0.0.%d:21720", w.n))
			if mine {
				to.want[annLine(s.id, addr)]++
			}
			out = append(out, act{at, "announces " + trim(addr) + who, func() {
				s.bus.ShouldAnnounceAddr.Pub(bus.ShouldAnnounceAddrEvent{TargetRuntimeId: target, Addr: addr})
			}})
		case 1:
			m := map[string]string{}
			n := t.Weighted(1, 3, 2, 1) * t.Range(1, 9)
			if t.Chance(12) {
				n = t.Range(10, 600)
			}
			for i := range n {
				m[name(t, fmt.Sprintf("peer%d.%d", w.n, i))] = name(t, fmt.Sprintf("10.0.%d.1:2", i))
			}
			if mine {
				to.want[addrList(m)]++
			}
			out = append(out, act{at, fmt.Sprintf("sends %d addresses%s", len(m), who), func() {
				s.bus.SendPeers.Pub(bus.SendPeersEvent{TargetRuntimeId: target, PeerAddrs: m})
			}})
		case 2:
			if mine {
				to.want[reqLine(s.id)]++
			}
			out = append(out, act{at, "requests addresses" + who, func() {
				s.bus.ShouldRequestPeers.Pub(bus.ShouldRequestPeersEvent{TargetRuntimeId: target})
			}})
		case 3:
			if len(w.free) == 0 {
				continue
			}
			tx := pbt.Pick(t, w.free)
			id := model.Tid(tx)
			if !s.inv.HasTx(id) && s.inv.StoreTx(tx) != nil {
				continue
			}
			s.has[id] = true
			out = append(out, act{at, "relays " + txLine(tx), func() {
				s.bus.ValidatedTx.Pub(bus.ValidatedTxEvent{TxId: id})
			}})
		case 4:
			b := w.heads[0]
			if len(w.heads) > 1 {
				w.heads = w.heads[1:]
			}
			to.want["a synced chain"]++
			out = append(out, act{at, fmt.Sprintf("moves to head %s height %d", short(b.Id), b.Height), func() {
				s.bus.ValidatedHead.Pub(bus.ValidatedHeadEvent{Head: b.Id})
			}})
		case 5:
			out = append(out, act{at, "prints", func() {
				s.bus.PrintUpdate.Pub(bus.PrintUpdateEvent{Peer: true})
			}})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].at < out[j].at })
	// heads are announced in order of work: hand them out anew in time order
	return out
}

// relayed counts the transactions the other side lacks (it may learn of none by itself).
func relayed(acts []act, s, to *side, w *world) {
	for _, a := range acts {
		for _, tx := range w.free {
			if a.line == "relays "+txLine(tx) && !to.has[model.Tid(tx)] {
				to.want[txLine(tx)]++
			}
		}
	}
}

func (w *world) play(sides []*side, acts [][]act) *sync.WaitGroup {
	var wg sync.WaitGroup
	start := time.Now()
	for i := range sides {
		for _, a := range acts[i] {
			w.t.Note("%c at %v %s", 'A'+i, a.at, a.line)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, a := range acts[i] {
				time.Sleep(a.at - time.Since(start))
				a.do()
			}
		}()
	}
	return &wg
}

func (w *world) await(names string, sides ...*side) {
	t := w.t
	until := time.Now().Add(patience)
	quiet := false
	for {
		ok := true
		for _, s := range sides {
			s.collect()
			m, x := s.diff()
			if len(x) > 0 {
				t.Fail("extra", "%s gets what was not sent to it, or too often: %s", trim(s.id), strings.Join(x, "; "))
			}
			ok = ok && len(m) == 0
			if len(m) > 0 && time.Now().After(until) {
				t.Fail("lost", "%s does not get within %v: %s", trim(s.id), patience, strings.Join(m, "; "))
			}
		}
		if ok && quiet {
			return
		}
		quiet = ok
		time.Sleep(map[bool]time.Duration{true: 130, false: 5}[ok] * time.Millisecond)
	}
}

func setup(t *pbt.T) *world {
	p := gen.Params(t)
	w := &world{t: t}
	w.h = history.New(t, p, nil, history.Focus{})
	for i := range t.Range(1, 6) {
		if tx := gen.Coinbase(uint64(100+i), 1+t.Draw(1000), gen.K(t.Intn(gen.NKeys)).Pkh); w.h.S.CheckTx(tx).Ok() {
			w.free = append(w.free, tx)
		}
	}
	return w
}

// chain prepares heads of growing work for side s.
func (w *world) chain(s *side, from *model.Block, k int) {
	b := from
	for range k {
		nb := w.h.Extend(b, 1)
		if nb == nil {
			break
		}
		b = nb
		w.heads = append(w.heads, b)
		w.store(s, b)
	}
}

func runPair(t *pbt.T) {
	w := setup(t)
	a, b := newSide(w.h.S.P, name(t, "nodeA")), newSide(w.h.S.P, name(t, "nodeB"))
	ab := []*side{a, b}
	// one of them may have a chain the other lacks
	head := [2]core.HashT{}
	lead := -1
	if t.Bool() {
		lead = t.Intn(2)
		w.chain(ab[lead], w.h.S.Root, t.Range(1, 4))
		if len(w.heads) == 0 {
			lead = -1
		}
	}
	if lead >= 0 && t.Bool() {
		head[lead] = w.heads[0].Id
		ab[1-lead].want["a synced chain"]++ // at the start
	}
	for _, tx := range w.free {
		for _, s := range ab {
			if t.Intn(3) == 2 && s.inv.StoreTx(tx) == nil {
				s.has[model.Tid(tx)] = true
			}
		}
	}
	acts := [][]act{w.events(a, b, lead == 0), w.events(b, a, lead == 1)}
	relayed(acts[0], a, b, w)
	relayed(acts[1], b, a, w)
	l := wire.NewLink()
	l.AB.Delay = time.Duration(t.Weighted(3, 2, 1, 1)*8) * time.Millisecond
	l.BA.Delay = time.Duration(t.Weighted(3, 2, 1, 1)*8) * time.Millisecond
	l.Start()
	t.Cleanup(l.Close)
	ca, cb := l.Conns(a.id, b.id)
	if ca.HasErr() || cb.HasErr() {
		t.Fail("handshake", "the handshake fails: %v %v", ca.Err(), cb.Err())
	}
	a.p = peer.NewPeer(a.bus, a.inv, ca, head[0])
	b.p = peer.NewPeer(b.bus, b.inv, cb, head[1])
	t.Note("A and B connect, delays %v %v", l.AB.Delay, l.BA.Delay)
	go a.p.Loop()
	go b.p.Loop()
	time.Sleep(time.Duration(t.Intn(60)) * time.Millisecond)
	w.play(ab, acts).Wait()
	w.await("both", a, b)
	// still usable, both ways
	for i, s := range ab {
		to := ab[1-i]
		to.want[annLine(s.id, "last")]++
		s.bus.ShouldAnnounceAddr.Pub(bus.ShouldAnnounceAddrEvent{TargetRuntimeId: to.id, Addr: "last"})
	}
	w.await("both", a, b)
	for _, s := range ab {
		if e, ok := s.cls.Pop(); ok {
			t.Fail("closed", "%s closes the connection to %s", trim(s.id), trim(e.PeerRuntimeId))
		}
	}
	for _, s := range ab {
		for _, e := range s.wide {
			w.content(e)
		}
	}
	if len(acts[0]) > 0 && len(acts[1]) > 0 {
		t.NonTrivial()
	}
	if lead >= 0 && len(ab[1-lead].wide) > 0 {
		t.Label("with a sync")
	}
	l.Close()
	w.ends(a, b.id)
	w.ends(b, a.id)
}

// ends expects a side to give up its connection, once.
func (w *world) ends(s *side, other string) {
	until := time.Now().Add(patience)
	n := 0
	for n == 0 {
		if e, ok := s.cls.Pop(); ok {
			if e.PeerRuntimeId != other {
				w.t.Fail("closed", "%s announces the end of %s, not %s", trim(s.id), trim(e.PeerRuntimeId), trim(other))
			}
			n++
			continue
		}
		if time.Now().After(until) {
			w.t.Fail("not-closed", "%s does not announce within %v that the connection ended", trim(s.id), patience)
		}
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(30 * time.Millisecond)
	if _, ok := s.cls.Pop(); ok {
		w.t.Fail("closed-twice", "%s announces the end of the connection twice", trim(s.id))
	}
}

// content checks that a synced chain is complete and right.
func (w *world) content(e bus.CandidateHeadEvent) {
	t := w.t
	b := w.h.S.Blocks[e.Head]
	if b == nil {
		t.Fail("sync-content", "a synced chain has an unknown head")
	}
	n := model.NewNode(w.h.S.P, rules.Now)
	if res := n.OfferHead(e); res != "advance" && res != "reorg" {
		t.Fail("sync-content", "the synced chain of head %s (height %d) is not usable: %s", short(b.Id), b.Height, res)
	}
}

// runScript has a scripted end that also pings, requests and closes.
func runScript(t *pbt.T) {
	w := setup(t)
	a := newSide(w.h.S.P, name(t, "node"))
	foe := newSide(w.h.S.P, name(t, "script")) // only for bookkeeping
	init := t.Bool()
	for _, tx := range w.free {
		if t.Intn(3) == 2 && a.inv.StoreTx(tx) == nil {
			a.has[model.Tid(tx)] = true
		}
		if t.Intn(3) == 2 {
			foe.has[model.Tid(tx)] = true
		}
	}
	acts := w.events(a, foe, false)
	relayed(acts, a, foe, w)
	// commands of the script
	type cmd struct {
		at   time.Duration
		name string
		do   func()
		line string
	}
	l := wire.NewLink()
	l.AB.Delay = time.Duration(t.Weighted(3, 2, 1)*8) * time.Millisecond
	l.BA.Delay = time.Duration(t.Weighted(3, 2, 1)*8) * time.Millisecond
	l.Start()
	t.Cleanup(l.Close)
	f := &wire.Foe{T: t, C: l.B, Init: init, Patience: patience}
	f.OnCmd = func(c string) {
		switch c {
		case "announce-addr":
			foe.got[annLine(a.id, f.GetStr())]++
		case "addrs-request":
			foe.got[reqLine(a.id)]++
		case "peer-addrs":
			m := map[string]string{}
			for range f.GetNum() {
				k := f.GetStr()
				m[k] = f.GetStr()
			}
			foe.got[addrList(m)]++
		case "new-tx":
			id := f.GetHash()
			f.Flag(!foe.has[id])
			if !foe.has[id] {
				tx := f.GetTx()
				if model.Tid(tx) != id {
					panic(wire.Gone{Why: "another transaction came than announced"})
				}
				foe.got[txLine(tx)]++
			}
		case "sync-chain":
			f.Sync(&wire.Offer{})
		default:
			panic(wire.Gone{Why: "unknown command " + c})
		}
	}
	var cmds []cmd
	at := time.Duration(0)
	pings := 0
	for range t.Weighted(1, 2, 3, 3, 2, 2, 1, 1) {
		at += time.Duration(t.Intn(3)*t.Intn(40)) * time.Millisecond
		w.n++
		switch t.Weighted(2, 3, 2, 2, 3, 1) {
		case 0:
			pings++
			cmds = append(cmds, cmd{at, "ping", func() {}, "pings"})
		case 1:
			addr := name(t, fmt.Sprintf("10.1.0.%d:21720", w.n))
			a.want[annLine(foe.id, addr)]++
			cmds = append(cmds, cmd{at, "announce-addr", func() { f.Str(addr) }, "announces " + trim(addr)})
		case 2:
			a.want[reqLine(foe.id)]++
			cmds = append(cmds, cmd{at, "addrs-request", func() {}, "requests addresses"})
		case 3:
			m := map[string]string{}
			for i := range t.Intn(5) {
				m[name(t, fmt.Sprintf("p%d.%d", w.n, i))] = name(t, "10.2.0.1:1")
			}
			a.want[addrList(m)]++
			cmds = append(cmds, cmd{at, "peer-addrs", func() {
				f.Num(uint64(len(m)))
				for k, v := range m {
					f.Str(k)
					f.Str(v)
				}
			}, fmt.Sprintf("sends %d addresses", len(m))})
		case 4:
			if len(w.free) == 0 {
				continue
			}
			tx := pbt.Pick(t, w.free)
			if !a.has[model.Tid(tx)] {
				a.want[txLine(tx)]++
			}
			cmds = append(cmds, cmd{at, "new-tx", func() {
				f.Hash(model.Tid(tx))
				wanted := f.GetFlag()
				if wanted == a.has[model.Tid(tx)] {
					panic(wire.Gone{Why: "wrong answer to whether a transaction is wanted"})
				}
				if wanted {
					f.Tx(tx)
				}
			}, "relays " + txLine(tx)})
		case 5:
			cmds = append(cmds, cmd{at, "sync-chain", func() { f.Sync(&wire.Offer{}) }, "syncs"})
		}
	}
	script := func(what string, fn func()) {
		if why := wire.Try(fn); why != "" {
			t.Fail("broken", "%s: %s", what, why)
		}
	}
	done := make(chan *prot.Conn, 1)
	go func() { done <- prot.NewConn(prot.NewParams(a.id, !init, false), l.A) }()
	script("the handshake", func() {
		for _, s := range []string{"levilutz/basiccoin", "v0.0.0", foe.id, "continue"} {
			f.Str(s)
		}
		for _, s := range []string{"levilutz/basiccoin", "v0.0.0", a.id, "continue"} {
			f.Want(s)
		}
	})
	conn := <-done
	if conn.HasErr() {
		t.Fail("handshake", "the handshake fails: %v", conn.Err())
	}
	a.p = peer.NewPeer(a.bus, a.inv, conn, core.HashT{})
	go a.p.Loop()
	t.Note("the script connects (%s), delays %v %v", map[bool]string{true: "initiator", false: "acceptor"}[init], l.AB.Delay, l.BA.Delay)
	for _, c := range cmds {
		t.Note("script at %v %s", c.at, c.line)
	}
	if !init {
		script("the first sync", func() { f.Serve(30 * time.Millisecond) })
	}
	wg := w.play([]*side{a}, [][]act{acts})
	begin := time.Now()
	for _, c := range cmds {
		script("while the script "+c.line, func() {
			f.Serve(c.at - time.Since(begin))
			f.Command(c.name, c.do)
		})
	}
	script("serving the node", func() { f.Serve(350*time.Millisecond - time.Since(begin)) })
	wg.Wait()
	until := time.Now().Add(patience)
	for {
		script("serving the node", func() { f.Serve(60 * time.Millisecond) })
		m, _ := foe.diff()
		a.collect()
		k, _ := a.diff()
		if len(m)+len(k) == 0 || time.Now().After(until) {
			break
		}
	}
	script("serving the node", func() { f.Serve(130 * time.Millisecond) })
	a.collect()
	for _, s := range []*side{a, foe} {
		m, x := s.diff()
		if len(m) > 0 {
			t.Fail("lost", "%s does not get within %v: %s", trim(s.id), patience, strings.Join(m, "; "))
		}
		if len(x) > 0 {
			t.Fail("extra", "%s gets what was not sent to it, or too often: %s", trim(s.id), strings.Join(x, "; "))
		}
	}
	script("a last ping", func() { f.Command("ping", func() {}) })
	// closing
	how := t.Intn(3)
	switch how {
	case 0:
		t.Note("the script asks to close")
		f.Str("cmd:close")
	case 1: // instead of an acknowledgement
		t.Note("the script asks to close when the node issues a command")
		a.bus.ShouldAnnounceAddr.Pub(bus.ShouldAnnounceAddrEvent{TargetRuntimeId: foe.id, Addr: "x"})
		script("a last announcement", func() {
			if c := f.GetStr(); c != "cmd:announce-addr" {
				panic(wire.Gone{Why: "it is " + c})
			}
		})
		f.Str("cmd:close")
	case 2: // both at once
		t.Note("the script asks to close while the node issues a command")
		a.bus.ShouldAnnounceAddr.Pub(bus.ShouldAnnounceAddrEvent{TargetRuntimeId: foe.id, Addr: "x"})
		time.Sleep(time.Duration(t.Intn(40)) * time.Millisecond)
		f.Str("cmd:close")
	}
	w.ends(a, foe.id)
	if !closed(l.B) {
		t.Fail("left-open", "the node does not close the connection after it was asked to")
	}
	if len(acts) > 0 && len(cmds) > 0 {
		t.NonTrivial()
	}
}

func closed(c *net.TCPConn) bool {
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	buf := make([]byte, 4096)
	for {
		if _, err := c.Read(buf); err != nil {
			ne, ok := err.(net.Error)
			return !(ok && ne.Timeout())
		}
	}
}

func TestPBT(tt *testing.T) {
	pbt.Main(tt, []pbt.Arm{
		{Name: "pair", Quick: 1000, Thorough: 30000, Chunk: 32, Par: 8, StallS: 150, Retry: true, Run: runPair,
			Rule: "two real peers over a delayed link; both sides announce, send lists (up to 60 kB strings), request, relay transactions the other has or lacks, move to heavier heads, also for other targets, in bursts at drawn times; each must arrive exactly once with its content, then once more in both directions; non-trivial: both sides did something"},
		{Name: "script", Quick: 1000, Thorough: 30000, Chunk: 32, Par: 8, StallS: 150, Retry: true, Run: runScript,
			Rule: "a real peer against a scripted end with its own encoder that pings, announces, requests, sends lists, relays and syncs at drawn times while the node does too, as initiator or acceptor, and in the end asks to close, also in place of an acknowledgement; non-trivial: both did something"},
	})
}
