//go:build go1.25

package c17

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"runtime"
	"runtime/debug"
	"syscall"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/peer"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/internal/zverif/drive"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/history"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
	"github.com/levilutz/basiccoin/internal/zverif/wire"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
	"github.com/levilutz/basiccoin/pkg/topic"
)

const patience = 12 * time.Second

func short(h core.HashT) string { return h.String()[:8] }

func eventually(d time.Duration, f func() bool) bool {
	until := time.Now().Add(d)
	for !f() {
		if time.Now().After(until) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
	return true
}

// attack is a node under attack by one connection, with an honest other node.
type attack struct {
	t      *pbt.T
	h      *history.H
	d      *drive.Node // the node
	n      *model.Node
	head   core.HashT
	base   *model.Block // where the attack began
	friend *drive.Node
	fn     *model.Node
	fhead  core.HashT
	link   *wire.Link
	foe    *wire.Foe
	closed topic.Sub[bus.PeerClosingEvent]
	gone   map[string]int
	alloc  uint64
	blocks []*model.Block // offered by the foe
	txs    map[core.HashT]core.Tx
	pkhs   []core.HashT
	deep   int
	fake   map[core.HashT]int
}

func (w *attack) branch(n *model.Node, b *model.Block, k, avg int) *model.Block {
	w.h.N = n
	for i := 0; i < k; i++ {
		nb := w.h.Extend(b, avg)
		if nb == nil || w.h.S.LedgerAt(nb).Bad != "" {
			return b
		}
		b = nb
	}
	return b
}

// give hands a node a chain over its own bus.
func (w *attack) give(d *drive.Node, n *model.Node, head *core.HashT, b *model.Block) bool {
	w.h.N = n
	e := w.h.Segment(b)
	res := n.OfferHead(e)
	d.Bus.CandidateHead.Pub(e)
	if res != "advance" && res != "reorg" {
		return false
	}
	return eventually(patience, func() bool {
		for _, x := range d.Heads() {
			*head = x
		}
		return *head == b.Id
	})
}

func start(t *pbt.T, factory bool) *attack {
	drive.Real.Store(true)
	p := gen.Params(t)
	w := &attack{t: t, pkhs: gen.Pkhs(gen.NKeys), gone: map[string]int{}, txs: map[core.HashT]core.Tx{}, fake: map[core.HashT]int{}}
	w.h = history.New(t, p, nil, history.Focus{})
	w.d = drive.New(t, p, false, nil, nil)
	w.n = model.NewNode(p, rules.Now)
	w.closed = w.d.Bus.PeerClosing.Sub()
	w.base = w.branch(w.n, w.h.S.Root, t.Weighted(1, 3, 3, 2, 1), 2)
	if w.base != w.h.S.Root && !w.give(w.d, w.n, &w.head, w.base) {
		t.Discard()
	}
	return w
}

// befriend connects an honest node.
func (w *attack) befriend() {
	t := w.t
	w.friend = drive.New(t, w.h.S.P, false, nil, nil)
	w.fn = model.NewNode(w.h.S.P, rules.Now)
	if w.base != w.h.S.Root && !w.give(w.friend, w.fn, &w.fhead, w.base) {
		t.Discard()
	}
	w.link = wire.NewLink()
	w.link.Start()
	t.Cleanup(w.link.Close)
	a, b := w.link.Conns("node", "friend")
	if a.HasErr() || b.HasErr() {
		t.Discard()
	}
	go peer.NewPeer(w.d.Bus, w.d.Inv, a, w.head).Loop()
	go peer.NewPeer(w.friend.Bus, w.friend.Inv, b, w.fhead).Loop()
}

// face connects the foe; init if the foe initiated the connection.
func (w *attack) face(init bool) {
	t := w.t
	a, b := wire.Pair()
	t.Cleanup(func() { a.Close(); b.Close() })
	done := make(chan *prot.Conn, 1)
	go func() { done <- prot.NewConn(prot.NewParams("node", !init, false), a) }()
	f := &wire.Foe{T: t, C: b, Init: init}
	f.OnCmd = w.onCmd(f)
	why := wire.Try(func() {
		for _, s := range []string{"levilutz/basiccoin", "v0.0.0", "foe", "continue"} {
			f.Str(s)
		}
		for range 4 {
			f.GetStr()
		}
	})
	c := <-done
	if why != "" || c.HasErr() {
		t.Fail("handshake", "an honest handshake fails: %s %v", why, c.Err())
	}
	f.K = 0
	w.foe = f
	p := peer.NewPeer(w.d.Bus, w.d.Inv, c, w.head)
	go p.Loop()
}

func workOf(b *model.Block) core.HashT { return model.FromBig(b.Work) }

// honest is the offer of a chain as an honest node makes it.
func (w *attack) honest(b *model.Block) *wire.Offer {
	o := &wire.Offer{Work: workOf(b), Head: b.Id, Txs: map[core.HashT]core.Tx{}, Merkles: map[core.HashT]core.MerkleNode{}}
	for x := b; ; x = x.Parent {
		o.Ids = append(o.Ids, x.Id)
		if x.Parent == nil {
			break
		}
		o.Blocks = append(o.Blocks, x.B)
	}
	w.h.N = model.NewNode(w.h.S.P, rules.Now)
	e := w.h.Segment(b)
	for _, m := range e.Merkles {
		o.Merkles[model.Mid(m)] = m
	}
	for _, tx := range e.Txs {
		o.Txs[model.Tid(tx)] = tx
	}
	return o
}

// onCmd answers the node's own commands.
func (w *attack) onCmd(f *wire.Foe) func(string) {
	return func(cmd string) {
		switch cmd {
		case "sync-chain": // claim to be where the node was
			b := w.h.S.Blocks[w.head]
			o := w.honest(b)
			f.Sync(o)
		case "new-tx":
			id := f.GetHash()
			_, have := w.txs[id]
			f.Flag(!have)
			if !have {
				f.GetTx()
			}
		case "announce-addr":
			f.GetStr()
		case "peer-addrs":
			n := f.GetNum()
			for range min(n, 1000) {
				f.GetStr()
				f.GetStr()
			}
		}
	}
}

// counts are what a foe may claim to send.
func claim(t *pbt.T) uint64 {
	switch t.Weighted(2, 4, 1) {
	case 0:
		return uint64(t.Intn(4))
	case 1:
		return uint64(1)<<t.Range(8, 63) + uint64(t.Intn(3)) - 1
	}
	return t.U64()
}

var words = []string{"cmd:sync-chain", "cmd:new-tx", "cmd:ping", "cmd:peer-addrs", "cmd:addrs-request", "cmd:announce-addr", "cmd:close",
	"cmd:", "ack:sync-chain", "ack:", "cmd:nonsense", "continue", "cancel", "sync:send", "sync:recv", "complete", ""}

func noise(t *pbt.T) []byte {
	switch t.Weighted(3, 2, 2, 2, 1) {
	case 0:
		return wire.Frame([]byte(pbt.Pick(t, words)))
	case 1:
		return t.Bytes(t.Range(1, 80))
	case 2:
		return wire.Frame(t.Bytes(t.Range(0, 80)))
	case 3:
		return wire.U64(claim(t))
	}
	return append([]byte{0xff, byte(t.Intn(256))}, make([]byte, t.Intn(70000))...)
}

// tamper draws a deviation at one of the next pieces.
func (w *attack) tamper() {
	t, f := w.t, w.foe
	f.At = f.K + t.Intn([]int{4, 12, 40}[t.Weighted(3, 4, 3)])
	kind := t.Weighted(4, 3, 3, 2, 2, 3, 3, 2, 2)
	name := ""
	switch kind {
	case 0:
		pos, bit := t.Intn(64), byte(1+t.Intn(255))
		name = "altered"
		f.Tamper = func(b []byte, _ bool) ([]byte, bool) {
			b = append([]byte{}, b...)
			if len(b) > 0 {
				b[pos%len(b)] ^= bit
			}
			return b, false
		}
	case 1:
		name = "cut short"
		n := t.Intn(40)
		f.Tamper = func(b []byte, _ bool) ([]byte, bool) { return b[:min(n, len(b))], false }
	case 2:
		name = "replaced"
		x := noise(t)
		f.Tamper = func([]byte, bool) ([]byte, bool) { return x, false }
	case 3:
		name = "left out"
		f.Tamper = func([]byte, bool) ([]byte, bool) { return nil, false }
	case 4:
		name = "sent twice"
		f.Tamper = func(b []byte, _ bool) ([]byte, bool) { return append(append([]byte{}, b...), b...), false }
	case 5:
		name = "preceded by noise"
		x := noise(t)
		f.Tamper = func(b []byte, _ bool) ([]byte, bool) { return append(x, b...), false }
	case 6:
		name = "a huge number or length"
		v := claim(t)
		f.Tamper = func(b []byte, framed bool) ([]byte, bool) {
			if framed {
				return append([]byte{byte(v >> 8), byte(v)}, b[2:]...), false
			}
			if len(b) == 8 {
				return wire.U64(v), false
			}
			return append([]byte{byte(v)}, b[1:]...), false
		}
	case 7:
		name = "never sent"
		f.Tamper = func([]byte, bool) ([]byte, bool) { return nil, true }
	case 8:
		name = "the other truth value, or zero"
		f.Tamper = func(b []byte, framed bool) ([]byte, bool) {
			if len(b) == 1 {
				return []byte{b[0] ^ 1}, false
			}
			if framed {
				return wire.Frame(nil), false
			}
			return make([]byte, len(b)), false
		}
	}
	t.Note("   piece %d is %s", f.At-f.K, name)
}

// cpu is the time used by this process.
func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// spins reports whether the process stays busy with nothing to do.
func spins() bool {
	for i := 0; i < 12; i++ {
		c, at := cpu(), time.Now()
		time.Sleep(60 * time.Millisecond)
		if float64(cpu()-c) < 0.3*float64(time.Since(at)) {
			return false
		}
	}
	return true
}

func total() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// do runs one script of the foe and accounts for it.
func (w *attack) do(name string, f func()) string {
	a, sent := total(), w.foe.Sent
	why := wire.Try(f)
	time.Sleep(10 * time.Millisecond)
	w.alloc = total() - a
	bytes := w.foe.Sent - sent
	w.t.Note("%s: %d bytes sent%s", name, bytes, map[bool]string{true: ", ended early (" + why + ")"}[why != ""])
	if lim := uint64(48<<20) + 2000*uint64(bytes); w.alloc > lim {
		w.t.Fail("memory", "the node allocates %d MB on %d bytes from a peer (%s)", w.alloc>>20, bytes, name)
	}
	return why
}

func (w *attack) tx() core.Tx {
	t := w.t
	l := w.h.S.LedgerAt(w.base)
	tx, _ := gen.SpendTx(t, gen.Coins(l), w.base.Height+1)
	switch t.Weighted(4, 1, 1, 1, 1) {
	case 1:
		if len(tx.Outputs) > 0 {
			tx.Outputs[0].Value += 1 + t.Draw(1<<40)
		}
	case 2:
		if len(tx.Inputs) > 0 {
			tx.Inputs[0].Utxo.Ind += t.Draw(1 << 50)
		}
	case 3:
		tx.IsCoinbase = !tx.IsCoinbase
	case 4:
		tx.Inputs = nil
	}
	return tx
}

// badChain makes a chain that breaks the rules somewhere, in header or ledger.
func (w *attack) badChain() *wire.Offer {
	t := w.t
	b := w.branch(w.n, w.forkPoint(), 1+t.Intn(2), 2)
	if t.Bool() {
		if x := w.h.Bad(b); x != nil {
			b = x
			if y := w.h.Extend(b, 0); y != nil && t.Bool() {
				b = y
			}
			return w.honest(b)
		}
	}
	o := w.honest(b)
	if len(o.Blocks) == 0 {
		return o
	}
	i := t.Intn(min(len(o.Blocks), 3))
	blk := o.Blocks[i]
	switch t.Intn(6) {
	case 0:
		blk.Target = gen.SubT(blk.Target, 1+t.Draw(1<<40))
	case 1:
		blk.MinedTime = t.U64()
	case 2:
		blk.MerkleRoot = core.NewHashTFromBytes(t.Bytes(32))
	case 3: // a transaction instead of a merkle node
		for id := range o.Txs {
			if blk.MerkleRoot.EqZero() || model.Less(id, blk.MerkleRoot) {
				blk.MerkleRoot = id
			}
		}
	case 4:
		blk.MerkleRoot = core.HashT{}
	case 5: // the root of another block
		blk.MerkleRoot = o.Blocks[t.Intn(len(o.Blocks))].MerkleRoot
	}
	specs := map[core.HashT]gen.Spec{}
	for _, x := range o.Blocks {
		if sp := w.h.SpecOf(model.Bid(x)); len(sp.Txs) > 0 {
			specs[x.MerkleRoot] = sp
		}
	}
	blk = gen.Mine(blk, t.Draw(1<<30))
	o.Blocks[i] = blk
	o.Ids[i] = model.Bid(blk)
	for j := i - 1; j >= 0; j-- {
		x := o.Blocks[j]
		x.PrevBlockId = o.Ids[j+1]
		x = gen.Mine(x, t.Draw(1<<30))
		o.Blocks[j], o.Ids[j] = x, model.Bid(x)
	}
	o.Head = o.Ids[0]
	for j := i; j >= 0; j-- { // it may be valid all the same
		if sp, ok := specs[o.Blocks[j].MerkleRoot]; ok && w.h.S.Blocks[o.Blocks[j].PrevBlockId] != nil && w.h.S.Blocks[o.Ids[j]] == nil {
			sp.Block = o.Blocks[j]
			w.h.Put(w.h.S.Blocks[o.Blocks[j].PrevBlockId], sp)
		}
	}
	return o
}

func (w *attack) forkPoint() *model.Block {
	b := w.h.S.Blocks[w.head]
	for k := w.t.Weighted(5, 2, 1); k > 0 && b.Parent != nil; k-- {
		b = b.Parent
	}
	return b
}

// heavier makes a valid chain with more work than the node's head.
func (w *attack) heavier(n *model.Node) *model.Block {
	cur := w.h.S.Blocks[w.head]
	b := w.forkPoint()
	for i := 0; i < 8 && b.Work.Cmp(cur.Work) <= 0; i++ {
		b = w.branch(n, b, 1, 2)
	}
	return b
}

func (w *attack) lie(o *wire.Offer) {
	t := w.t
	switch t.Intn(7) {
	case 0:
		o.Work = core.NewHashTFromBytes(t.Bytes(32))
	case 1:
		o.Head = core.NewHashTFromBytes(t.Bytes(32))
	case 2:
		o.Ids = append([]core.HashT{core.NewHashTFromBytes(t.Bytes(32))}, o.Ids...)
	case 3: // a walk that does not end
		x := core.NewHashTFromBytes(t.Bytes(32))
		o.Ids = nil
		for range t.Range(1, 400) {
			o.Ids = append(o.Ids, x)
		}
	case 4:
		if len(o.Blocks) > 1 {
			o.Blocks[0], o.Blocks[1] = o.Blocks[1], o.Blocks[0]
		}
	case 5:
		o.Entity = func(id core.HashT) bool {
			w.foe.Flag(true)
			w.foe.Flag(false)
			w.foe.Num(0)
			w.foe.Num(claim(t))
			w.foe.Num(claim(t))
			w.foe.Raw(t.Bytes(t.Range(1, 200)))
			return true
		}
	case 6:
		at := t.Intn(3)
		o.Entity = func(id core.HashT) bool {
			if o.Served-1 != at {
				return false
			}
			w.foe.Flag(false)
			w.foe.Hash(core.NewHashTFromBytes(t.Bytes(32)))
			w.foe.Hash(id)
			return true
		}
	}
}

func (w *attack) told(o *wire.Offer) {
	if o.Told != nil {
		w.deep++
	}
	if o.Done {
		w.t.Label("synced to the end")
	}
}

// step is one thing the foe does.
func (w *attack) step(tampered bool) {
	t, f := w.t, w.foe
	f.Tamper = nil
	if tampered {
		w.tamper()
	}
	switch t.Weighted(3, 3, 3, 2, 2, 2, 3, 2, 1) {
	case 0:
		b := noise(t)
		for range t.Intn(4) {
			b = append(b, noise(t)...)
		}
		w.do("noise", func() { f.Raw(b); f.Serve(20 * time.Millisecond) })
	case 1: // a valid chain
		b := w.heavier(w.n)
		w.blocks = append(w.blocks, b)
		o := w.honest(b)
		w.do(fmt.Sprintf("a valid chain (%s height %d)", short(b.Id), b.Height), func() { f.Command("sync-chain", func() { f.Sync(o) }) })
		w.told(o)
	case 2: // a bad chain
		o := w.badChain()
		w.do("a bad chain", func() { f.Command("sync-chain", func() { f.Sync(o) }) })
		w.told(o)
	case 3: // a lie about a chain
		o := w.honest(w.heavier(w.n))
		w.lie(o)
		w.do("a lie about a chain", func() { f.Command("sync-chain", func() { f.Sync(o) }) })
		w.told(o)
	case 4:
		tx := w.tx()
		w.txs[model.Tid(tx)] = tx
		w.do("a transaction", func() {
			f.Command("new-tx", func() {
				f.Hash(model.Tid(tx))
				if f.GetFlag() {
					f.Tx(tx)
				}
			})
		})
	case 5: // claimed counts
		n := claim(t)
		tail := noise(t)
		switch t.Intn(2) {
		case 0:
			w.do(fmt.Sprintf("%d addresses claimed", n), func() {
				f.Command("peer-addrs", func() { f.Num(n); f.Str("x"); f.Str("y"); f.Raw(tail); f.Serve(20 * time.Millisecond) })
			})
		case 1:
			m := claim(t)
			w.do(fmt.Sprintf("%d inputs and %d outputs claimed", n, m), func() {
				f.Command("new-tx", func() {
					f.Hash(core.NewHashTFromBytes(t.Bytes(32)))
					if f.GetFlag() {
						f.Flag(false)
						f.Num(0)
						f.Num(n)
						f.Num(m)
						f.Raw(tail)
						f.Serve(20 * time.Millisecond)
					}
				})
			})
		}
	case 6: // the node has something to say
		what := ""
		switch t.Intn(5) {
		case 0:
			var tx *core.Tx
			for _, id := range w.h.S.Blocks[w.head].TxIds {
				x := w.h.S.Txs[id]
				tx = &x
			}
			if tx == nil {
				return
			}
			what = "a transaction"
			w.d.Bus.ValidatedTx.Pub(bus.ValidatedTxEvent{TxId: model.Tid(*tx)})
		case 1:
			what = "its head"
			w.fake[w.head]++
			w.d.Bus.ValidatedHead.Pub(bus.ValidatedHeadEvent{Head: w.head})
		case 2:
			what = "addresses"
			w.d.Bus.SendPeers.Pub(bus.SendPeersEvent{TargetRuntimeId: "foe", PeerAddrs: map[string]string{"a": "127.0.0.1:1", "b": "x"}})
		case 3:
			what = "its address"
			w.d.Bus.ShouldAnnounceAddr.Pub(bus.ShouldAnnounceAddrEvent{TargetRuntimeId: "foe", Addr: "127.0.0.1:1"})
		case 4:
			what = "a request"
			w.d.Bus.ShouldRequestPeers.Pub(bus.ShouldRequestPeersEvent{TargetRuntimeId: "foe"})
		}
		w.do("the node sends "+what, func() { f.Serve(150 * time.Millisecond) })
	case 7: // take a sync and ask for odd things
		deny, verdict := t.Intn(6), t.Intn(4) != 0
		var ask []core.HashT
		for range t.Intn(4) {
			if id := w.h.S.Blocks[w.head].B.MerkleRoot; t.Bool() && !id.EqZero() {
				ask = append(ask, id)
			} else {
				ask = append(ask, core.NewHashTFromBytes(t.Bytes(32)))
			}
		}
		w.do("takes a sync", func() {
			f.Command("sync-chain", func() {
				f.Hash(core.HashT{})
				f.Hash(core.HashT{})
				f.GetHash()
				f.GetHash()
				f.Str("continue")
				if f.GetStr() == "continue" {
					f.Str("sync:recv")
					f.Want("sync:send")
					f.Receive(deny, verdict, ask)
				}
			})
		})
	case 8:
		w.do("ping", func() { f.Command("ping", func() {}) })
	}
	w.poll()
	if tampered && t.Intn(4) == 3 && spins() {
		t.Fail("spin", "the node stays busy while the peer sends nothing")
	}
}

// poll follows the node's head; it may only go to valid, heavier chains that were offered.
func (w *attack) poll() {
	t := w.t
	for _, id := range w.d.Heads() {
		if w.fake[id] > 0 { // announced by the harness
			w.fake[id]--
			continue
		}
		b := w.h.S.Blocks[id]
		if b == nil {
			t.Fail("unknown-head", "the node adopts %s, a block which is not valid or nobody made", short(id))
		}
		w.h.N = w.n
		e := w.h.Segment(b)
		res := w.n.OfferHead(e)
		if res != "advance" && res != "reorg" {
			t.Fail("bad-head", "the node adopts block %s although: %s", short(id), res)
		}
		t.Note("   the node adopts %s height %d", short(id), b.Height)
		w.head = id
	}
}

func (w *attack) ledger() {
	t := w.t
	b := w.h.S.Blocks[w.head]
	if h := w.d.Height(); h != b.Height {
		w.poll()
		b = w.h.S.Blocks[w.head]
		if h := w.d.Height(); h != b.Height {
			t.Fail("height", "the node reports height %d at block %s of height %d", h, short(b.Id), b.Height)
		}
	}
	l := w.h.S.LedgerAt(b)
	got := w.d.Utxos(w.pkhs, false)
	n := 0
	for u, pkh := range l.Utxos {
		for _, p := range w.pkhs {
			if p == pkh {
				n++
				if _, ok := got[u]; !ok {
					t.Fail("ledger", "the node lacks an unspent output of block %s's ledger after the attack", short(b.Id))
				}
			}
		}
	}
	if n != len(got) {
		t.Fail("ledger", "the node has %d unspent outputs at block %s, not %d", len(got), short(b.Id), n)
	}
	spent := map[core.Utxo]bool{}
	for _, tx := range w.h.S.Txs {
		for _, in := range tx.Inputs {
			spent[in.Utxo] = true
		}
	}
	for _, tx := range w.txs {
		if w.h.S.CheckTx(tx).Ok() {
			for _, in := range tx.Inputs {
				spent[in.Utxo] = true
			}
		}
	}
	free := w.d.Utxos(w.pkhs, true)
	for u := range got {
		if _, ok := free[u]; !ok && !spent[u] {
			t.Fail("pending", "an output is taken by a pending transaction that is not valid")
		}
	}
}

// end closes the foe's connection and expects the node to let go of it.
func (w *attack) end() {
	t, f := w.t, w.foe
	how := t.Intn(3)
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // the collector must not do the closing
	t.Note("the foe ends: %s", []string{"stops sending", "resets", "asks to close"}[how])
	f.C.SetReadDeadline(time.Time{})
	eof := make(chan struct{})
	go func() { io.Copy(io.Discard, f.C); close(eof) }() // what the node still wants to say
	switch how {
	case 0:
		f.C.CloseWrite()
	case 1:
		f.C.Close()
	case 2:
		wire.Try(func() { f.Raw(wire.Frame([]byte("cmd:close"))) })
		f.C.CloseWrite()
	}
	if !eventually(patience, func() bool {
		for {
			e, ok := w.closed.Pop()
			if !ok {
				return w.gone["foe"] > 0
			}
			w.gone[e.PeerRuntimeId]++
		}
	}) {
		t.Fail("not-closed", "the node does not notice within %v that the peer is gone", patience)
	}
	time.Sleep(5 * time.Millisecond)
	for e, ok := w.closed.Pop(); ok; e, ok = w.closed.Pop() {
		w.gone[e.PeerRuntimeId]++
	}
	if w.gone["foe"] > 1 {
		t.Fail("closed-twice", "the node announces the end of one connection %d times", w.gone["foe"])
	}
	select {
	case <-eof:
	case <-time.After(patience):
		t.Fail("leak", "the node announced the end of the connection but never closes it")
	}
	w.gone["foe"] = 0
	if spins() {
		t.Fail("spin", "the node stays busy after the peer is gone")
	}
}

// served checks that the honest peer still gets its chain across.
func (w *attack) served() {
	t := w.t
	w.poll()
	if w.gone["friend"] > 0 {
		t.Fail("other-peer", "the connection to another peer ended")
	}
	// the friend may have got the foe's valid blocks from the node
	for _, x := range w.friend.Heads() {
		w.fhead = x
	}
	w.h.N = w.fn
	if b := w.h.S.Blocks[w.fhead]; b != nil && w.fhead != w.fn.Head.Id {
		w.fn.OfferHead(w.h.Segment(b))
	}
	cur := w.h.S.Blocks[w.head]
	b := cur
	for i := 0; i < 4 && b.Work.Cmp(cur.Work) <= 0; i++ {
		b = w.branch(w.fn, b, 1, 1)
	}
	if b.Work.Cmp(cur.Work) <= 0 {
		return
	}
	if !w.give(w.friend, w.fn, &w.fhead, b) {
		t.Label("stopped: the friend does not take its block")
		return
	}
	if !eventually(patience, func() bool { w.poll(); return w.h.S.Blocks[w.head].Work.Cmp(b.Work) >= 0 }) {
		t.Fail("other-peer", "after the attack the node does not adopt a valid block of another peer within %v", patience)
	}
}

// connection is one connection of the foe, from beginning to end.
func (w *attack) connection() {
	t := w.t
	init := t.Bool()
	w.face(init)
	t.Note("the foe connects (%s)", map[bool]string{true: "initiator", false: "acceptor"}[init])
	if !init { // the node begins with a sync
		tampered := t.Intn(4) == 3
		if tampered {
			w.tamper()
		}
		w.do("the node's first sync", func() { w.foe.Serve(60 * time.Millisecond) })
		w.poll()
		if tampered {
			w.end()
			return
		}
	}
	for range t.Weighted(4, 3, 1) {
		w.step(false)
	}
	w.step(t.Intn(5) != 4)
	w.end()
	w.poll()
}

func runFuzz(t *pbt.T) {
	w := start(t, false)
	w.befriend()
	var sent int64
	t.Steps(1, 2, 5, func(i int) {
		w.connection()
		sent += w.foe.Sent
	})
	w.poll()
	w.ledger()
	w.served()
	w.ledger()
	if sent > 4 {
		t.NonTrivial()
	}
	if w.deep > 0 {
		t.Label("a chain reached its verdict")
	}
	if w.head != w.base.Id {
		t.Label("moved by valid data")
	}
}

// failing makes an offer that must fail the first verification.
func (w *attack) failing() (*wire.Offer, string) {
	t := w.t
	cur := w.h.S.Blocks[w.head]
	switch t.Intn(6) {
	case 5: // nothing new
		o := &wire.Offer{Work: gen.AddT(workOf(cur), 1+t.Draw(1<<40)), Head: core.NewHashTFromBytes(t.Bytes(32))}
		x := cur
		for k := t.Intn(3); k > 0 && x.Parent != nil; k-- {
			x = x.Parent
		}
		o.Ids = []core.HashT{x.Id}
		return o, "nothing it lacks"
	case 0: // one block missing
		b := w.branch(w.n, cur, 2+t.Intn(3), 1)
		n := int(b.Height - cur.Height)
		if n < 2 {
			return nil, ""
		}
		o := w.honest(b)
		i := 1 + t.Intn(n-1)
		o.Ids = append(o.Ids[:i:i], o.Ids[i+1:]...)
		o.Blocks = append(o.Blocks[:i:i], o.Blocks[i+1:]...)
		return o, "a chain with a gap"
	case 1: // two branches put together
		a, b := w.branch(w.n, cur, 1+t.Intn(2), 1), w.branch(w.n, cur, 1+t.Intn(2), 1)
		if a == cur || b == cur {
			return nil, ""
		}
		o, p := w.honest(a), w.honest(b)
		k := int(a.Height - cur.Height)
		o.Ids = append(o.Ids[:k:k], p.Ids...)
		o.Blocks = append(o.Blocks[:k:k], p.Blocks...)
		return o, "two branches"
	case 2: // not more work than claimed
		b := cur.Parent
		if b == nil {
			return nil, ""
		}
		for k := t.Intn(3); k > 0 && b.Parent != nil; k-- {
			b = b.Parent
		}
		b = w.branch(w.n, b, 1, 1)
		if b.Work.Cmp(cur.Work) > 0 || w.d.Inv.HasBlock(b.Id) {
			return nil, ""
		}
		o := w.honest(b)
		o.Work = gen.AddT(workOf(cur), 1+t.Draw(1<<40))
		return o, "a chain without the claimed work"
	default: // no proof of work
		b := w.branch(w.n, cur, 1+t.Intn(3), 1)
		n := int(b.Height - cur.Height)
		if n < 1 {
			return nil, ""
		}
		o := w.honest(b)
		i := t.Intn(n)
		x := o.Blocks[i]
		what := "its target"
		switch t.Weighted(3, 2, 2, 2) {
		case 1:
			x.Target, what = core.HashT{}, "target zero"
		case 2:
			x.Target, what = gen.AddT(core.HashT{}, 1+t.Draw(1<<62)), "a tiny target"
		case 3:
			raw := make([]byte, 32)
			raw[t.Range(6, 31)] = byte(1 + t.Intn(255))
			x.Target, what = core.NewHashTFromBytes(raw), "a low target"
		}
		x = gen.Unmine(x, t.Draw(1<<30))
		o.Blocks[i], o.Ids[i] = x, model.Bid(x)
		for j := i - 1; j >= 0; j-- {
			y := o.Blocks[j]
			y.PrevBlockId = o.Ids[j+1]
			y = gen.Mine(y, t.Draw(1<<30))
			o.Blocks[j], o.Ids[j] = y, model.Bid(y)
		}
		o.Head = o.Ids[0]
		o.Work = gen.AddT(workOf(cur), 1+t.Draw(1<<40))
		return o, fmt.Sprintf("a chain with a block (%d from its head) not below %s", i, what)
	}
}

func runTold(t *pbt.T) {
	w := start(t, false)
	init := t.Bool()
	w.face(init)
	f := w.foe
	f.Patience = patience
	t.Note("the other node connects (%s)", map[bool]string{true: "initiator", false: "acceptor"}[init])
	if !init {
		if why := wire.Try(func() { f.Serve(150 * time.Millisecond) }); why != "" {
			t.Fail("first-sync", "the node's first sync fails: %s", why)
		}
	}
	n := 0
	talk := func(what, key string, fn func()) {
		if why := wire.Try(fn); why != "" {
			t.Fail(key, "%s: %s", what, why)
		}
	}
	t.Steps(1, 2, 5, func(int) {
		o, what := w.failing()
		if o == nil {
			return
		}
		t.Note("offers %s (%d blocks)", what, len(o.Blocks))
		talk("while the node was offered "+what, "not-told", func() { f.Command("sync-chain", func() { f.Sync(o) }) })
		if o.Told == nil && what != "nothing it lacks" {
			t.Fail("not-told", "the node declines %s before seeing it", what)
		}
		if o.Told != nil && *o.Told {
			t.Fail("passed", "the node lets %s pass", what)
		}
		n++
		if t.Bool() {
			talk("a ping after a failed offer", "unusable", func() { f.Command("ping", func() {}) })
		}
		w.poll()
	})
	b := w.heavier(w.n)
	cur := w.h.S.Blocks[w.head]
	if b.Work.Cmp(cur.Work) <= 0 {
		return
	}
	o := w.honest(b)
	talk("a valid chain after failed ones", "unusable", func() { f.Command("sync-chain", func() { f.Sync(o) }) })
	if !o.Done {
		t.Fail("unusable", "a valid, heavier chain offered on the same connection does not pass (cancelled: %v)", o.Cancelled)
	}
	if !eventually(patience, func() bool { w.poll(); return w.h.S.Blocks[w.head].Work.Cmp(b.Work) >= 0 }) {
		t.Fail("unusable", "a valid, heavier chain offered on the same connection is not adopted within %v", patience)
	}
	w.ledger()
	if n > 0 {
		t.NonTrivial()
	}
}

// dial connects to the node's listener.
func dial(t *pbt.T, addr string) *net.TCPConn {
	a, _ := net.ResolveTCPAddr("tcp", addr)
	var c *net.TCPConn
	eventually(5*time.Second, func() bool {
		var err error
		c, err = net.DialTCP("tcp", nil, a)
		return err == nil
	})
	if c == nil {
		panic("infrastructure: cannot dial " + addr)
	}
	c.SetLinger(0)
	t.Cleanup(func() { c.Close() })
	return c
}

func runDoor(t *pbt.T) {
	w := start(t, true)
	addr := fmt.Sprintf("127.%d.%d.%d:2172", 1+rand.IntN(254), rand.IntN(256), 1+rand.IntN(254))
	pf := peerfactory.NewPeerFactory(peerfactory.Params{Listen: true, LocalAddr: addr, MinPeers: 3, MaxPeers: 8,
		RuntimeId: "node", SeekNewPeersFreq: time.Hour}, w.d.Bus, w.d.Inv)
	if w.head != (core.HashT{}) {
		w.fake[w.head]++
		w.d.Bus.ValidatedHead.Pub(bus.ValidatedHeadEvent{Head: w.head})
	}
	go pf.Loop()
	a0 := total()
	var sent int64
	hello := []string{"levilutz/basiccoin", "v0.0.0", "", "continue"}
	var conns []*net.TCPConn
	t.Steps(1, 3, 6, func(i int) {
		c := dial(t, addr)
		conns = append(conns, c)
		f := &wire.Foe{T: t, C: c, Init: true, Patience: 60 * time.Millisecond}
		f.OnCmd = w.onCmd(f)
		id := fmt.Sprintf("foe%d", i)
		kind := t.Weighted(3, 2, 3, 2, 1, 2, 2)
		stage := t.Intn(5)
		what := ""
		why := wire.Try(func() {
			say := func(k int) {
				s := hello[k]
				if k == 2 {
					s = id
				}
				f.Str(s)
			}
			switch kind {
			case 0:
				what = fmt.Sprintf("is silent after %d greetings", min(stage, 3))
				for k := 0; k < min(stage, 3); k++ {
					say(k)
				}
			case 1:
				what = fmt.Sprintf("closes after %d greetings", stage)
				for k := 0; k < min(stage, 4); k++ {
					say(k)
				}
				c.Close()
			case 2:
				what = fmt.Sprintf("sends noise after %d greetings", stage)
				for k := 0; k < min(stage, 4); k++ {
					say(k)
				}
				f.Raw(noise(t))
			case 3:
				what = "stops within a message"
				for k := 0; k < min(stage, 3); k++ {
					say(k)
				}
				f.Raw([]byte{0xff})
			case 4:
				what = "claims to be the node itself"
				id = "node"
				for k := 0; k < 4; k++ {
					say(k)
				}
			case 5:
				what = "has a long name"
				id = string(make([]byte, t.Range(1, 65535)))
				for k := 0; k < 4; k++ {
					say(k)
				}
			case 6:
				what = "is admitted and tampers"
				for k := 0; k < 4; k++ {
					say(k)
				}
				for range 4 {
					f.GetStr()
				}
				w.foe = f
				f.K = 0
				w.tamper()
				o := w.honest(w.heavier(w.n))
				f.Command("sync-chain", func() { f.Sync(o) })
			}
		})
		_ = why
		sent += f.Sent
		t.Note("a client %s", what)
	})
	if x, lim := total()-a0, uint64(64<<20)+2000*uint64(sent); x > lim {
		t.Fail("memory", "the node allocates %d MB on %d bytes from its clients", x>>20, sent)
	}
	c := dial(t, addr)
	f := &wire.Foe{T: t, C: c, Init: true, Patience: patience}
	f.OnCmd = w.onCmd(f)
	hello[2] = "honest"
	if why := wire.Try(func() {
		for _, s := range hello {
			f.Str(s)
		}
		for range 4 {
			f.GetStr()
		}
		f.Command("ping", func() {})
	}); why != "" {
		t.Fail("shut-out", "an honest client is not served within %v: %s", patience, why)
	}
	w.poll()
	b := w.heavier(w.n)
	if b.Work.Cmp(w.h.S.Blocks[w.head].Work) > 0 {
		o := w.honest(b)
		if why := wire.Try(func() { f.Command("sync-chain", func() { f.Sync(o) }) }); why != "" || !o.Done && !o.Cancelled {
			t.Fail("shut-out", "an honest client cannot sync: %s", why)
		}
		if !o.Cancelled && !eventually(patience, func() bool { w.poll(); return w.h.S.Blocks[w.head].Work.Cmp(b.Work) >= 0 }) {
			t.Fail("shut-out", "a valid chain of an honest client is not adopted within %v", patience)
		}
	}
	for _, c := range conns {
		c.Close()
	}
	if why := wire.Try(func() { f.Serve(150 * time.Millisecond); f.Command("ping", func() {}) }); why != "" {
		t.Fail("shut-out", "an honest client is no longer served once the others left: %s", why)
	}
	if spins() {
		t.Fail("spin", "the node stays busy after the clients are gone")
	}
	w.poll()
	w.ledger()
	t.NonTrivial()
}

// idle is the number of goroutines once it no longer goes down.
func idle(d time.Duration, want int) int {
	least, since := runtime.NumGoroutine(), time.Now()
	for until := since.Add(d); time.Now().Before(until); time.Sleep(10 * time.Millisecond) {
		if n := runtime.NumGoroutine(); n < least {
			least, since = n, time.Now()
		}
		if want >= 0 && least <= want || want < 0 && time.Since(since) > 400*time.Millisecond {
			break
		}
	}
	return least
}

// runLeave has many connections come and go and looks for what they leave behind.
func runLeave(t *pbt.T) {
	w := start(t, true)
	door := t.Bool()
	addr := fmt.Sprintf("127.%d.%d.%d:2172", 1+rand.IntN(254), rand.IntN(256), 1+rand.IntN(254))
	most := 30
	if t.Bool() {
		most = t.Range(1, 4)
	}
	if door {
		pf := peerfactory.NewPeerFactory(peerfactory.Params{Listen: true, LocalAddr: addr, MinPeers: 1, MaxPeers: most,
			RuntimeId: "node", SeekNewPeersFreq: time.Hour}, w.d.Bus, w.d.Inv)
		if w.head != (core.HashT{}) {
			w.d.Bus.ValidatedHead.Pub(bus.ValidatedHeadEvent{Head: w.head})
			for range w.d.Heads() {
			}
		}
		go pf.Loop()
	}
	pace := t.Intn(3)
	visit := func(i, stage, how int) {
		var c *net.TCPConn
		init := door || t.Bool()
		if door {
			c = dial(t, addr)
		} else {
			a, b := wire.Pair()
			t.Cleanup(func() { a.Close(); b.Close() })
			c = b
			go func() {
				if x := prot.NewConn(prot.NewParams("node", !init, false), a); !x.HasErr() {
					peer.NewPeer(w.d.Bus, w.d.Inv, x, w.head).Loop()
				}
			}()
		}
		f := &wire.Foe{T: t, C: c, Init: init, Patience: 300 * time.Millisecond}
		f.OnCmd = w.onCmd(f)
		at := ""
		wire.Try(func() {
			hello := []string{"levilutz/basiccoin", "v0.0.0", fmt.Sprintf("visitor%d", i), "continue"}
			for k := 0; k < min(stage, 4); k++ {
				at = fmt.Sprintf("after %d greetings", k+1)
				f.Str(hello[k])
			}
			if stage < 4 {
				return
			}
			for range 4 {
				f.GetStr()
			}
			if !init {
				at = "during the node's first sync"
				f.Serve(time.Duration(t.Intn(40)) * time.Millisecond)
			}
			at = "once admitted"
			switch stage {
			case 5:
				f.Command("ping", func() {})
				at = "after a ping"
			case 6:
				at = "within a command"
				f.Command(pbt.Pick(t, []string{"sync-chain", "new-tx", "announce-addr", "peer-addrs"}), func() {})
			case 7:
				at = "within a message"
				f.Raw([]byte{0, 9, 'c'})
			}
		})
		if how == 2 && stage >= 4 {
			wire.Try(func() { f.Raw(wire.Frame([]byte("cmd:close"))) })
		}
		if how == 1 {
			c.CloseWrite()
			go func() { // reads until the node closes
				io.Copy(io.Discard, c)
				c.Close()
			}()
		} else {
			c.Close()
		}
		t.Note("visitor %d leaves %s (%s)", i, at, []string{"closes", "stops sending", "asks to close"}[how])
		time.Sleep(time.Duration(pace*pace*15) * time.Millisecond)
	}
	visit(0, 5, 0)
	time.Sleep(100 * time.Millisecond)
	base := idle(5*time.Second, -1)
	n, served := 0, 0
	t.Steps(8, 12, 24, func(i int) {
		stage, how := []int{4, 5, 6, 7, t.Intn(4)}[t.Weighted(3, 3, 3, 1, 3)], t.Intn(3)
		visit(i+1, stage, how)
		if n++; stage >= 4 {
			served++
		}
	})
	if left := idle(2*patience, base+2); left > base+max(2, served/2) {
		t.Fail("leftovers", "%d connections have come and gone and %d goroutines are left behind (%d before, %d now)", n, left-base, base, left)
	}
	if spins() {
		t.Fail("spin", "the node stays busy after the visitors are gone")
	}
	w.poll()
	w.ledger()
	if served >= 4 {
		t.NonTrivial()
	}
}

func TestPBT(tt *testing.T) {
	pbt.Main(tt, []pbt.Arm{
		{Name: "fuzz", Quick: 700, Thorough: 30000, Chunk: 20, Workers: 40, StallS: 120, MemMB: 4096, Retry: true, Run: runFuzz,
			Rule: "a real chain and peer attacked over 1-5 connections by commands (valid, bad and lying chain offers, transactions, huge claimed counts, odd syncs, noise, answers to the node's own commands) of which one message piece is altered, cut, replaced, dropped, doubled, preceded by noise, inflated or withheld, each connection closed in one of three ways; process alive, bounded allocation, no busy loop, closed connection noticed and released, head only moved by valid chains, ledger equal to the reference, another real node's block still adopted; non-trivial: bytes were sent"},
		{Name: "told", Quick: 300, Thorough: 8000, Chunk: 20, Workers: 24, StallS: 120, Retry: true, Run: runTold,
			Rule: "a real peer is offered chains with gaps, mixed branches, less work than claimed, blocks not meeting their (also zero or tiny) target: it must say no, answer pings and then take a valid chain on the same connection; non-trivial: at least one failing offer"},
		{Name: "door", Quick: 300, Thorough: 8000, Chunk: 20, Workers: 24, StallS: 120, MemMB: 4096, Retry: true, Run: runDoor,
			Rule: "1-6 clients of a listening peer factory stay silent, stop within the handshake, send noise, claim odd names or tamper; an honest client must still be admitted, served and synced; non-trivial: always"},
		{Name: "leave", Quick: 120, Thorough: 3000, Chunk: 8, Workers: 24, StallS: 120, Retry: true, Run: runLeave,
			Rule: "8-24 connections, to a peer or through a listening factory, come and leave within the handshake, idle, after or within a command or a message, by closing, half-closing or asking to close; afterwards the goroutines are back to what they were, nothing spins and the ledger is right; non-trivial: at least 4 were served"},
	})
}
