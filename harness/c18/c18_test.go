//go:build go1.25

package c18

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/peer"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/internal/zverif/drive"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/history"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
	"github.com/levilutz/basiccoin/internal/zverif/wire"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
)

const patience = 12 * time.Second

func short(h core.HashT) string { return h.String()[:8] }

// node is a full node of the network.
type node struct {
	name string
	d    *drive.Node
	n    *model.Node // what the harness knows it has
	head core.HashT  // last announced head
	had  core.HashT  // head before the step
}

func (n *node) poll() core.HashT {
	for _, h := range n.d.Heads() {
		n.head = h
	}
	return n.head
}

// peer makes the node's end of a connection, with the head it has right now.
func (n *node) peer(c *prot.Conn) *peer.Peer {
	for {
		h := n.poll()
		p := peer.NewPeer(n.d.Bus, n.d.Inv, c, h)
		if n.poll() == h {
			return p
		}
	}
}

type link struct {
	i, j int
	l    *wire.Link
}

type net struct {
	patience time.Duration
	t        *pbt.T
	h        *history.H
	nodes    []*node
	links    []*link
	pkhs     []core.HashT
	deep     int
	synch    int
	relay    int
	keep     int
	mu       sync.Mutex
}

// give offers a node a chain and waits until it is handled.
func (w *net) give(n *node, b *model.Block) {
	w.h.N = n.n
	e := w.h.Segment(b)
	res := n.n.OfferHead(e)
	n.d.Bus.CandidateHead.Pub(e)
	if res == "advance" || res == "reorg" {
		w.wait(n, b.Id, "offered")
	} else {
		time.Sleep(120 * time.Millisecond)
	}
	w.t.Note("%s is given block %s (height %d): %s", n.name, short(b.Id), b.Height, res)
}

func (w *net) wait(n *node, id core.HashT, what string) {
	until := time.Now().Add(w.patience)
	for n.poll() != id {
		if time.Now().After(until) {
			if what == "offered" { // not a matter of syncing
				w.t.Label("stopped: an offered chain is not adopted")
				w.t.Discard()
			}
			w.t.Fail("no-convergence", "%s does not adopt block %s within %v, its head is %s", n.name, short(id), w.patience, short(n.head))
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// connect joins two nodes; i initiates.
func (w *net) connect(i, j int) {
	t := w.t
	a, b := w.nodes[i], w.nodes[j]
	l := wire.NewLink()
	l.AB.Delay = time.Duration(t.Weighted(4, 2, 1)*6) * time.Millisecond
	l.BA.Delay = time.Duration(t.Weighted(4, 2, 1)*6) * time.Millisecond
	l.Start()
	t.Cleanup(l.Close)
	ca, cb := l.Conns(a.name, b.name)
	if ca.HasErr() || cb.HasErr() {
		t.Fail("handshake", "the handshake fails: %v %v", ca.Err(), cb.Err())
	}
	pa := a.peer(ca)
	pb := b.peer(cb)
	go pa.Loop()
	go pb.Loop()
	w.links = append(w.links, &link{i, j, l})
	t.Note("%s connects to %s (delays %v %v)", a.name, b.name, l.AB.Delay, l.BA.Delay)
}

func (w *net) disconnect(k int) {
	l := w.links[k]
	w.links = append(w.links[:k:k], w.links[k+1:]...)
	l.l.Close()
	w.t.Note("%s and %s are disconnected", w.nodes[l.i].name, w.nodes[l.j].name)
	time.Sleep(300 * time.Millisecond)
}

// groups of connected nodes.
func (w *net) groups() [][]*node {
	id := make([]int, len(w.nodes))
	for i := range id {
		id[i] = i
	}
	for range w.nodes {
		for _, l := range w.links {
			m := min(id[l.i], id[l.j])
			id[l.i], id[l.j] = m, m
		}
	}
	var out [][]*node
	for g := range w.nodes {
		var ns []*node
		for i, n := range w.nodes {
			if id[i] == g {
				ns = append(ns, n)
			}
		}
		if len(ns) > 0 {
			out = append(out, ns)
		}
	}
	return out
}

func (w *net) block(id core.HashT) *model.Block { return w.h.S.Blocks[id] }

// settle waits for all connected nodes to agree on the heaviest work and checks them.
func (w *net) settle(what string) { w.settleAs(what, false) }

// settleAs: loose if the nodes may already have moved when the step ends.
func (w *net) settleAs(what string, loose bool) {
	t := w.t
	for _, g := range w.groups() {
		best := w.block(g[0].n.Head.Id)
		for _, n := range g {
			n.had = n.n.Head.Id
			if b := w.block(n.n.Head.Id); b.Work.Cmp(best.Work) > 0 {
				best = b
			}
		}
		until := time.Now().Add(w.patience)
		for {
			ok := true
			line := ""
			for _, n := range g {
				b := w.block(n.poll())
				if b == nil {
					t.Fail("unknown-head", "%s announces a head %s nobody made", n.name, short(n.head))
				}
				line += fmt.Sprintf(" %s at %s height %d;", n.name, short(b.Id), b.Height)
				ok = ok && b.Work.Cmp(best.Work) == 0
			}
			if ok {
				break
			}
			if time.Now().After(until) {
				t.Fail("no-convergence", "after %s the nodes do not reach the heaviest chain (%s height %d) within %v:%s", what, short(best.Id), best.Height, w.patience, line)
			}
			time.Sleep(10 * time.Millisecond)
		}
		time.Sleep(150 * time.Millisecond)
		for _, n := range g {
			n.poll()
			had := w.block(n.had)
			now := w.block(n.head)
			if !loose && had.Work.Cmp(best.Work) == 0 && now != had {
				t.Fail("left-best", "%s left its head %s, as heavy as any, for %s", n.name, short(had.Id), short(now.Id))
			}
			if now.Work.Cmp(best.Work) != 0 {
				t.Fail("no-convergence", "%s left the heaviest chain again", n.name)
			}
			if now != had {
				w.synch++
				lca := model.LCA(had, now)
				if d := int(now.Height - lca.Height); d > w.deep {
					w.deep = d
				}
				w.h.N = n.n
				n.n.OfferHead(w.h.Segment(now))
				n.n.Head = n.n.W.Blocks[now.Id]
			} else if len(g) > 1 {
				w.keep++
			}
			w.ledger(n, now)
		}
	}
}

func (w *net) ledger(n *node, b *model.Block) {
	t := w.t
	l := w.h.S.LedgerAt(b)
	if h := n.d.Height(); h != b.Height {
		t.Fail("height", "%s reports height %d at block %s of height %d", n.name, h, short(b.Id), b.Height)
	}
	want := map[core.Utxo]core.HashT{}
	for u, o := range l.Utxos {
		want[u] = o
	}
	got := n.d.Utxos(w.pkhs, false)
	for u := range want {
		known := false
		for _, p := range w.pkhs {
			known = known || p == want[u]
		}
		if !known {
			delete(want, u)
		}
	}
	if len(got) != len(want) {
		t.Fail("ledger", "%s has %d unspent outputs at block %s, not %d", n.name, len(got), short(b.Id), len(want))
	}
	for u := range want {
		if _, ok := got[u]; !ok {
			t.Fail("ledger", "%s lacks an unspent output of block %s's ledger", n.name, short(b.Id))
		}
	}
}

// tx offers a fresh transaction to one node; all connected nodes at the same head get it.
func (w *net) tx() {
	t := w.t
	gs := w.groups()
	g := pbt.Pick(t, gs)
	for _, n := range g {
		if n.head != g[0].head {
			return
		}
	}
	head := w.block(g[0].head)
	l := gen.CopyLedger(w.h.S.LedgerAt(head))
	// leave out what a pending transaction of any node spends
	for _, n := range g {
		for u := range n.n.PendingSpends() {
			delete(l.Utxos, u)
		}
	}
	coins := gen.Coins(l)
	if len(coins) == 0 {
		return
	}
	src := pbt.Pick(t, g)
	var txs []core.Tx
	for i := 0; i < 1+t.Intn(3); i++ {
		tx, used := gen.SpendTx(t, coins, head.Height+1)
		if len(tx.Inputs) == 0 || model.TxVSize(tx) > w.h.S.P.MaxTxVSize || !src.n.W.CheckTx(tx).Ok() {
			continue
		}
		if _, ok := src.n.W.Txs[model.Tid(tx)]; ok {
			continue
		}
		txs = append(txs, tx)
		var rest []gen.Coin
		for k, c := range coins {
			ok := true
			for _, u := range used {
				ok = ok && u != k
			}
			if ok {
				rest = append(rest, c)
			}
		}
		coins = rest
		if len(coins) == 0 {
			break
		}
	}
	for _, tx := range txs {
		t.Note("%s is offered %s", src.name, rules.TxLine(tx))
		if _, ok := w.h.S.Txs[model.Tid(tx)]; !ok {
			w.h.S.PutTx(tx)
		}
		src.d.Bus.CandidateTx.Pub(bus.CandidateTxEvent{Tx: tx})
		for _, n := range g {
			n.n.OfferTx(tx)
		}
	}
	// arrival
	until := time.Now().Add(w.patience)
	for _, tx := range txs {
		id := model.Tid(tx)
		for _, n := range g {
			for !n.d.Inv.HasTx(id) {
				if time.Now().After(until) {
					if n == src {
						t.Discard()
					}
					t.Fail("tx-lost", "a transaction accepted by %s does not reach %s within %v", src.name, n.name, w.patience)
				}
				time.Sleep(10 * time.Millisecond)
			}
			if len(g) > 1 {
				w.relay++
			}
		}
	}
	time.Sleep(60 * time.Millisecond)
	for _, tx := range txs {
		for _, in := range tx.Inputs {
			for _, n := range g {
				if _, ok := n.d.Utxos(w.pkhs, true)[in.Utxo]; ok {
					t.Fail("tx-not-pending", "a transaction accepted by %s reached %s but is not pending there", src.name, n.name)
				}
			}
		}
	}
}

// branch builds k blocks on b.
func (w *net) branch(n *node, b *model.Block, k, avg int) *model.Block {
	w.h.N = n.n
	for i := 0; i < k; i++ {
		nb := w.h.Extend(b, avg)
		if nb == nil || w.h.S.LedgerAt(nb).Bad != "" {
			return b
		}
		b = nb
	}
	return b
}

func run(t *pbt.T) {
	drive.Real.Store(true)
	p := gen.Params(t)
	w := &net{t: t, patience: patience, pkhs: gen.Pkhs(gen.NKeys)}
	w.h = history.New(t, p, nil, history.Focus{})
	count := 2 + t.Weighted(5, 2)
	for i := 0; i < count; i++ {
		n := &node{name: fmt.Sprintf("node%c", 'A'+i), n: model.NewNode(p, rules.Now)}
		n.d = newNode(t, p)
		w.nodes = append(w.nodes, n)
	}
	avg := []int{2, 1, 6}[t.Weighted(5, 2, 3)]
	trunk := w.branch(w.nodes[0], w.h.S.Root, t.Intn(5), avg)
	for _, n := range w.nodes {
		if trunk.Height > 0 && t.Intn(5) != 4 {
			w.give(n, trunk)
		}
		if t.Intn(4) == 1 { // a branch it will know without having it as head in the end
			w.give(n, w.branch(n, trunk, 1+t.Intn(2), avg))
		}
		w.give(n, w.branch(n, trunk, t.Weighted(2, 3, 2, 2, 1, 1), avg))
	}
	for i := 1; i < count; i++ {
		if t.Bool() {
			w.connect(i-1, i)
		} else {
			w.connect(i, i-1)
		}
	}
	w.settle("connecting")
	t.Steps(1, 3, 6, func(int) {
		switch t.Weighted(5, 4, 2, 2) {
		case 0: // one node advances
			n := pbt.Pick(t, w.nodes)
			from := w.block(n.poll())
			for k := t.Weighted(5, 1, 1); k > 0 && from.Parent != nil; k-- {
				from = from.Parent
			}
			b := from
			for i := 0; i < 6 && b.Work.Cmp(w.block(n.head).Work) <= 0; i++ {
				b = w.branch(n, b, 1, avg)
			}
			w.give(n, w.branch(n, b, t.Weighted(6, 1, 1), avg))
			w.settle("an advance")
		case 1:
			w.tx()
		case 2: // several advance at once
			for _, n := range w.nodes {
				if t.Intn(4) != 3 {
					w.h.N = n.n
					b := w.branch(n, w.block(n.poll()), 1+t.Weighted(5, 1), avg)
					e := w.h.Segment(b)
					n.n.OfferHead(e)
					n.d.Bus.CandidateHead.Pub(e)
					t.Note("%s is given block %s (height %d) at the same time", n.name, short(b.Id), b.Height)
				}
			}
			w.settleAs("simultaneous advances", true)
		case 3: // cut a link, both sides go on, connect again
			k := t.Intn(len(w.links))
			l := w.links[k]
			w.disconnect(k)
			for _, n := range w.nodes {
				if m := t.Weighted(2, 3, 2, 1); m > 0 {
					w.give(n, w.branch(n, w.block(n.poll()), m, avg))
				}
			}
			w.settle("going apart")
			if t.Bool() {
				w.connect(l.i, l.j)
			} else {
				w.connect(l.j, l.i)
			}
			w.settle("connecting again")
		}
	})
	t.Label(fmt.Sprintf("deepest sync: %d blocks", min(w.deep, 8)))
	if w.keep > 0 {
		t.Label("a node kept its head")
	}
	if w.relay > 0 {
		t.Label("transaction relayed")
	}
	if w.synch > 0 && w.deep > 0 {
		t.NonTrivial()
	}
}

// far connects nodes whose chains are far apart, or whose blocks are full.
func far(t *pbt.T) {
	drive.Real.Store(true)
	p := history.LargeParams(t)
	w := &net{t: t, patience: 60 * time.Second, pkhs: gen.Pkhs(gen.NKeys)}
	w.h = history.New(t, p, nil, history.Focus{})
	for i := 0; i < 2; i++ {
		n := &node{name: fmt.Sprintf("node%c", 'A'+i), n: model.NewNode(p, rules.Now)}
		n.d = newNode(t, p)
		w.nodes = append(w.nodes, n)
	}
	grow := func(b *model.Block, n int) *model.Block {
		w.h.N = w.nodes[0].n
		at := -1
		if t.Bool() {
			at = t.Intn(n + 1)
		}
		for i := 0; i < n; i++ {
			if i == at {
				b = w.h.Crowd(b, 1+t.Intn(300))
				continue
			}
			b = w.h.Branch(b, 1)
		}
		return b
	}
	size := func() int {
		switch t.Weighted(2, 3, 2) {
		case 0:
			return t.Intn(8)
		case 1:
			return t.Intn(120)
		}
		return 100 + t.Intn(300)
	}
	trunk := w.h.S.Root
	if t.Bool() {
		trunk = grow(trunk, size())
	}
	for _, n := range w.nodes {
		if trunk != w.h.S.Root && t.Intn(4) != 3 {
			w.give(n, trunk)
		}
		if t.Intn(3) != 2 || n == w.nodes[0] {
			w.give(n, grow(trunk, size()))
		}
	}
	if t.Bool() {
		w.connect(0, 1)
	} else {
		w.connect(1, 0)
	}
	w.settle("connecting")
	n := pbt.Pick(t, w.nodes)
	w.give(n, grow(w.block(n.poll()), 1+t.Intn(3)))
	w.settle("an advance")
	t.Label(fmt.Sprintf("deepest sync: %d+ blocks", w.deep/50*50))
	if w.deep > 20 {
		t.NonTrivial()
	}
}

// factoryRun connects nodes by real peer factories while their heads move.
func factoryRun(t *pbt.T) {
	drive.Real.Store(true)
	p := gen.Params(t)
	w := &net{t: t, patience: patience, pkhs: gen.Pkhs(gen.NKeys)}
	w.h = history.New(t, p, nil, history.Focus{})
	count := 2 + t.Weighted(5, 2)
	var seeds []string
	for i := 0; i < count; i++ {
		n := &node{name: fmt.Sprintf("node%c", 'A'+i), n: model.NewNode(p, rules.Now)}
		n.d = newNode(t, p)
		w.nodes = append(w.nodes, n)
	}
	trunk := w.branch(w.nodes[0], w.h.S.Root, t.Intn(3), 2)
	for _, n := range w.nodes {
		if trunk.Height > 0 && t.Bool() {
			w.give(n, trunk)
		}
	}
	// heads to be given while connecting
	type late struct {
		n  *node
		b  *model.Block
		at time.Duration
	}
	var lates []late
	for _, n := range w.nodes {
		at := time.Duration(0)
		b := w.block(n.n.Head.Id)
		for k := t.Weighted(2, 3, 3); k > 0; k-- {
			at += time.Duration(t.Intn(120)) * time.Millisecond
			b = w.branch(n, b, 1, 2)
			lates = append(lates, late{n, b, at})
		}
	}
	// everybody listens, later nodes know the first one
	var pfs []*peerfactory.PeerFactory
	for i, n := range w.nodes {
		addr := fmt.Sprintf("127.%d.%d.%d:2172", 1+rand.IntN(254), rand.IntN(256), 1+rand.IntN(254))
		pf := peerfactory.NewPeerFactory(peerfactory.Params{Listen: true, LocalAddr: addr, MinPeers: 3, MaxPeers: 8,
			RuntimeId: n.name, SeekNewPeersFreq: time.Hour}, n.d.Bus, n.d.Inv)
		if h := n.poll(); !h.EqZero() { // the factory was there when the head was announced
			n.d.Bus.ValidatedHead.Pub(bus.ValidatedHeadEvent{Head: h})
		}
		if i > 0 {
			pf.SetSeeds(seeds)
		}
		seeds = append(seeds, addr)
		pfs = append(pfs, pf)
	}
	go pfs[0].Loop()
	time.Sleep(60 * time.Millisecond)
	t.Note("the nodes connect")
	var wg sync.WaitGroup
	for i, pf := range pfs[1:] {
		at := time.Duration(t.Intn(200)) * time.Millisecond
		t.Note("%s starts to connect after %v", w.nodes[i+1].name, at)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(at)
			go pf.Loop()
			time.Sleep(100 * time.Millisecond)
		}()
	}
	for _, n := range w.nodes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			last := time.Duration(0)
			for _, x := range lates {
				if x.n != n {
					continue
				}
				time.Sleep(x.at - last)
				last = x.at
				w.mu.Lock()
				w.h.N = n.n
				e := w.h.Segment(x.b)
				n.n.OfferHead(e)
				w.mu.Unlock()
				n.d.Bus.CandidateHead.Pub(e)
				t.Note("%s is given block %s (height %d) after %v", n.name, short(x.b.Id), x.b.Height, x.at)
			}
		}()
	}
	wg.Wait()
	for i := 1; i < count; i++ {
		w.links = append(w.links, &link{0, i, nil})
	}
	w.settleAs("connecting while advancing", true)
	if w.synch > 0 {
		t.NonTrivial()
	}
}

func newNode(t *pbt.T, p core.Params) *drive.Node { return drive.New(t, p, false, nil, nil) }

func TestPBT(tt *testing.T) {
	pbt.Main(tt, []pbt.Arm{
		{Name: "network", Quick: 400, Thorough: 12000, Chunk: 16, Par: 8, StallS: 200, Retry: true, Run: run,
			Rule: "2-3 real nodes with real peers over loopback TCP (delayed), drawn common trunk, forks of up to 5 blocks, dependent transactions and block shapes; nodes connect, advance alone or together, are cut off and connected again, and get transactions; heads, ledgers and pending transactions against the reference; non-trivial: some node synced at least one block"},
		{Name: "far", Quick: 48, Thorough: 1500, Chunk: 3, Par: 16, StallS: 200, Retry: true, Run: far, MemMB: 4096,
			Rule: "two nodes whose chains are up to 400 blocks apart from a common block up to 400 high, with a block of up to 300 transactions at times, connect, then one advances; heads and ledgers against the reference; non-trivial: a sync of more than 20 blocks"},
		{Name: "factory", Quick: 300, Thorough: 8000, Chunk: 16, Par: 8, StallS: 200, Retry: true, Run: factoryRun,
			Rule: "2-3 real nodes whose real peer factories listen and dial over loopback TCP while every node is given 1-2 blocks at drawn times within 240 ms; heads and ledgers against the reference; non-trivial: some node synced"},
	})
}
