//go:build go1.25

package c13

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/miner"
	"github.com/levilutz/basiccoin/internal/zverif/drive"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

const patience = 90 * time.Second

func now() uint64 { return uint64(time.Now().Unix()) }

func short(h core.HashT) string { return h.String()[:8] }

// rig is a ledger with miners working on it.
type rig struct {
	t      *pbt.T
	p      core.Params
	w      *model.World // everything the node stores
	b      *bus.Bus
	iv     *inv.Inv
	cands  topic.Sub[bus.CandidateHeadEvent]
	pay    []core.HashT
	salt   uint64
	targs  []bus.MinerTargetEvent
	future uint64
	base   uint64
	tight  bool // timestamps within a few seconds of each other, the period's first possibly the latest
	seen   []cand
}

type cand struct {
	e    bus.CandidateHeadEvent
	copy bus.CandidateHeadEvent
	own  bool // offered by the harness
}

func params(t *pbt.T, n uint) core.Params {
	p := gen.Params(t)
	hard := func(h core.HashT, n uint) core.HashT {
		return model.FromBig(model.Big(h).Rsh(model.Big(h), n))
	}
	p.OriginalTarget = hard(p.OriginalTarget, n)
	p.MaxTarget = hard(p.MaxTarget, n)
	return p
}

// blockTime draws the timestamp of a child of parent.
func (r *rig) blockTime(parent *model.Block) uint64 {
	min := r.w.MinTime(parent)
	if r.future == 0 {
		v := gen.BlockTime(r.t, r.w, parent)
		if v > now()+3400 {
			v = now()
		}
		if v < min {
			v = min
		}
		return v
	}
	v := now() + r.future - r.t.Draw(r.future) // ahead of the clock
	if r.tight {
		v = min
		switch h := parent.Height + 1; {
		case h == 1 || h%r.p.DifficultyPeriod == 0: // the first of a period
			v = max(min, r.base) + r.t.Draw(6)
		case r.t.Draw(4) == 3:
			v += r.t.Draw(3)
		}
	}
	if v < min {
		v = min
	}
	return v
}

// grow adds a block to w (not to the node).
func (r *rig) grow(parent *model.Block, avg int) gen.Spec {
	r.salt++
	l := r.w.LedgerAt(parent)
	txs := gen.Fill(r.t, r.w, l, parent.Height+1, avg, 8, nil)
	tg := gen.NextBlockTarget(r.t, r.w, parent)
	return gen.Block(r.w, parent, txs, gen.BlockOpts{Pay: gen.K(r.t.Intn(gen.NKeys)).Pkh, Time: r.blockTime(parent),
		Target: &tg, Salt: r.salt << 20})
}

func (r *rig) put(s gen.Spec) *model.Block {
	for _, x := range s.Txs {
		if _, ok := r.w.Txs[model.Tid(x)]; !ok {
			r.w.PutTx(x)
		}
	}
	for _, m := range s.Merkles {
		if _, ok := r.w.Merkles[model.Mid(m)]; !ok {
			r.w.PutMerkle(m)
		}
	}
	return r.w.PutBlock(s.Block)
}

func (r *rig) store(s gen.Spec) {
	for _, x := range s.Txs {
		if !r.iv.HasTx(model.Tid(x)) {
			r.must(r.iv.StoreTx(x))
		}
	}
	for _, m := range s.Merkles {
		if !r.iv.HasMerkle(model.Mid(m)) {
			r.must(r.iv.StoreMerkle(m))
		}
	}
	r.must(r.iv.StoreBlock(s.Block))
}

func (r *rig) must(err error) {
	if err != nil {
		r.t.Label("stopped: the node refuses a prepared entity")
		r.t.Discard()
	}
}

// base prepares a ledger of a few blocks.
func base(t *pbt.T, n uint, mk func(r *rig)) *rig {
	r := &rig{t: t, p: params(t, n)}
	r.w = model.NewWorld(r.p, now)
	if t.Intn(3) == 1 {
		r.future = 60 + t.Draw(3300)
		r.tight = t.Bool()
		r.base = now() + r.future
	}
	mk(r)
	t.Note("%s", gen.ParamsLine(r.p))
	return r
}

// start runs the miners; payouts are the miners' addresses.
func (r *rig) start() {
	n := 1 + r.t.Weighted(5, 3, 2)
	same := r.t.Bool()
	for i := 0; i < n; i++ {
		k := i
		if same {
			k = 0
		}
		pkh := gen.K(20 + k).Pkh
		r.pay = append(r.pay, pkh)
		m := miner.NewMiner(miner.NewParams(pkh), r.b, r.iv)
		go m.Loop()
	}
	if r.future > 0 {
		r.t.Label("timestamps ahead of the clock")
	}
	r.t.Label(fmt.Sprintf("miners: %d, same address: %v", n, same))
	r.t.Note("%d miners, same address: %v", n, same)
}

// stop ends the miners: a target nobody can work on makes their loops give up.
func (r *rig) stop() {
	var junk core.HashT = gen.K(55).Pkh
	r.b.MinerTarget.Pub(bus.MinerTargetEvent{Head: junk, TxIds: []core.HashT{junk}})
}

// next waits for the next published block.
func (r *rig) next(until time.Time) (cand, bool) {
	for {
		if e, ok := r.cands.Pop(); ok {
			c := cand{e: e, copy: snapshot(e)}
			r.seen = append(r.seen, c)
			return c, true
		}
		if time.Now().After(until) {
			return cand{}, false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func snapshot(e bus.CandidateHeadEvent) bus.CandidateHeadEvent {
	e.Blocks = append([]core.Block{}, e.Blocks...)
	e.Merkles = append([]core.MerkleNode{}, e.Merkles...)
	e.Txs = append([]core.Tx{}, e.Txs...)
	for i := range e.Txs {
		e.Txs[i].Outputs = append([]core.TxOut{}, e.Txs[i].Outputs...)
		e.Txs[i].Inputs = append([]core.TxIn{}, e.Txs[i].Inputs...)
	}
	return e
}

func same(a, b bus.CandidateHeadEvent) bool {
	return fmt.Sprintf("%v", a) == fmt.Sprintf("%v", b)
}

func (r *rig) fail(key string, c bus.CandidateHeadEvent, format string, a ...any) {
	r.t.Note("published: head %s, %d blocks, %d nodes, %d transactions", short(c.Head), len(c.Blocks), len(c.Merkles), len(c.Txs))
	r.t.Fail(key, "a block published by a miner "+format, a...)
}

// judge checks one published block against the targets given so far and
// returns the index of the target it is for.
func (r *rig) judge(e bus.CandidateHeadEvent) int {
	if len(e.Blocks) != 1 {
		r.fail("blocks", e, "comes with %d blocks", len(e.Blocks))
	}
	b := e.Blocks[0]
	if e.Head != model.Bid(b) {
		r.fail("head-id", e, "is announced under the id %s, not its own %s", short(e.Head), short(model.Bid(b)))
	}
	parent, ok := r.w.Blocks[b.PrevBlockId]
	if !ok {
		r.fail("parent", e, "extends an unknown block %s", short(b.PrevBlockId))
	}
	// the block as a node would take it
	w := r.w.Clone()
	var cb *core.Tx
	for i, x := range e.Txs {
		id := model.Tid(x)
		if _, ok := w.Txs[id]; ok {
			if x.IsCoinbase {
				cb = &e.Txs[i]
			}
			continue
		}
		if rs := w.CheckTx(x); !rs.Ok() {
			r.fail("invalid-tx:"+rs.R[0], e, "carries an invalid transaction: %v", rs)
		}
		w.PutTx(x)
		if x.IsCoinbase {
			cb = &e.Txs[i]
		}
	}
	for _, m := range e.Merkles {
		if _, ok := w.Merkles[model.Mid(m)]; ok {
			continue
		}
		if rs := w.CheckMerkle(m); !rs.Ok() {
			r.fail("invalid-merkle:"+rs.R[0], e, "carries an invalid merkle node: %v", rs)
		}
		w.PutMerkle(m)
	}
	if rs := w.CheckBlock(b); !rs.Ok() {
		r.t.Note("block: time %d (clock %d, least %d), target %s, id %s", b.MinedTime, now(), w.MinTime(parent), b.Target.String()[:20], e.Head.String()[:20])
		r.fail("invalid-block:"+rs.R[0], e, "is invalid: %v", rs)
	}
	// the coinbase
	ids := w.MerkleTxs(b.MerkleRoot)
	if cb == nil {
		r.fail("no-coinbase", e, "comes without its coinbase")
	}
	if model.Tid(*cb) != ids[0] {
		r.fail("coinbase-first", e, "does not start with the coinbase it comes with")
	}
	fees := uint64(0)
	for _, id := range ids[1:] {
		for _, in := range w.Txs[id].Inputs {
			fees += in.Utxo.Value
		}
		for _, o := range w.Txs[id].Outputs {
			fees -= o.Value
		}
	}
	if len(cb.Outputs) != 1 || cb.Outputs[0].Value != fees+r.p.BlockReward {
		r.fail("payout", e, "pays %v, want one output of %d + %d fees", cb.Outputs, r.p.BlockReward, fees)
	}
	mine := false
	for _, p := range r.pay {
		mine = mine || p == cb.Outputs[0].PublicKeyHash
	}
	if !mine {
		r.fail("payee", e, "pays %s, no address of a miner", short(cb.Outputs[0].PublicKeyHash))
	}
	// the target it is for
	found := -1
	why := "is for no mining target that was given"
	for i, g := range r.targs {
		if g.Head != b.PrevBlockId {
			continue
		}
		if g.Target != b.Target {
			why = "has another target than the mining target on its parent"
			continue
		}
		if !sameSet(g.TxIds, ids[1:]) {
			why = fmt.Sprintf("has other transactions than the mining target on its parent: %s, want %s", list(ids[1:]), list(g.TxIds))
			continue
		}
		found = i
	}
	if found < 0 {
		r.fail("no-target", e, "%s", why)
	}
	nb := w.PutBlock(b)
	if l := w.LedgerAt(nb); l.Bad != "" {
		r.fail("not-connectable", e, "cannot be added to its parent's ledger: %s", l.Bad)
	}
	r.w = w
	return found
}

func sameSet(a, b []core.HashT) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[core.HashT]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
		if m[x] < 0 {
			return false
		}
	}
	return true
}

func list(ids []core.HashT) string {
	var s []string
	for _, x := range ids {
		s = append(s, short(x))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// unchanged checks that what was published did not change afterwards.
func (r *rig) unchanged() {
	for _, c := range r.seen {
		if !same(c.e, c.copy) {
			r.t.Note("then: %v", c.copy)
			r.t.Note("now:  %v", c.e)
			r.t.Fail("mutated", "a published block was changed after it was published")
		}
	}
}

// targetsRun gives miners mining targets directly.
func targetsRun(t *pbt.T) {
	r := base(t, 14, func(r *rig) { r.b = bus.NewBus(); r.iv = inv.NewInv(r.p, nil); r.cands = r.b.CandidateHead.Sub() })
	parent := r.w.Root
	blocks := []*model.Block{parent}
	t.Steps(0, 5, 8, func(int) {
		if len(blocks) > 1 && t.Intn(6) == 1 { // a fork
			parent = pbt.Pick(t, blocks)
		}
		s := r.grow(parent, 2)
		if s.Block.MinedTime > now()+3500 {
			return
		}
		r.store(s)
		parent = r.put(s)
		if r.w.LedgerAt(parent).Bad != "" {
			t.Discard()
		}
		blocks = append(blocks, parent)
		t.Note("block %s height %d on %s, time now%+d, %d txs", short(parent.Id), parent.Height, short(s.Block.PrevBlockId), int64(s.Block.MinedTime)-int64(now()), len(s.Txs))
	})
	r.start()
	defer r.stop()
	rounds := 1 + t.Weighted(5, 4, 2)
	nt := false
	for k := 0; k < rounds; k++ {
		head := parent
		if k > 0 && t.Intn(3) == 1 {
			head = pbt.Pick(t, blocks)
		}
		// independent transactions on head's ledger
		l := r.w.LedgerAt(head)
		var ids []core.HashT
		size := uint64(model.CoinbaseSize)
		for _, x := range gen.Fill(t, r.w, l, head.Height+1, 5, 40, nil) {
			ok := true
			for _, in := range x.Inputs {
				_, has := l.Utxos[in.Utxo]
				ok = ok && has
			}
			if !ok || r.w.Txs[model.Tid(x)].Outputs != nil {
				continue
			}
			size += model.TxVSize(x)
			r.must(r.iv.StoreTx(x))
			r.w.PutTx(x)
			ids = append(ids, model.Tid(x))
			t.Note("  %s: %d in, %d out, size %d", short(model.Tid(x)), len(x.Inputs), len(x.Outputs), model.TxVSize(x))
		}
		if head.Height > 0 && r.w.MinTime(head) > now()+3500 {
			t.Label("parent too far ahead")
			t.Discard()
		}
		g := bus.MinerTargetEvent{Head: head.Id, Target: r.w.NextTarget(head), TxIds: ids}
		if t.Intn(3) == 1 { // any allowed target, it is the miner's order
			g.Target = gen.NextBlockTarget(t, r.w, head)
		}
		t.Note("target on %s (height %d, target %s): %s", short(head.Id), head.Height, g.Target.String()[:12], list(ids))
		mt := r.w.MinTime(head)
		if head.Height > 0 && mt > now() {
			t.Label("least allowed time is ahead of the clock")
		}
		r.targs = append(r.targs, bus.MinerTargetEvent{Head: g.Head, Target: g.Target, TxIds: append([]core.HashT{}, ids...)})
		r.b.MinerTarget.Pub(g)
		if k < rounds-1 && t.Intn(4) == 1 {
			time.Sleep(time.Duration(t.Draw(1500)) * time.Millisecond)
			continue // replaced before anything is found, or while mining
		}
		// every miner finds a block for it
		want := map[core.HashT]int{}
		for _, p := range r.pay {
			want[p] = 1
		}
		until := time.Now().Add(patience)
		for len(want) > 0 {
			c, ok := r.next(until)
			if !ok {
				t.Fail("nothing-found", "a miner publishes no block for its newest target within %v, about 1 in 2^17 hashes would do", patience)
			}
			i := r.judge(c.e)
			if i == len(r.targs)-1 {
				for _, x := range c.e.Txs {
					if x.IsCoinbase {
						delete(want, x.Outputs[0].PublicKeyHash)
					}
				}
			}
			r.accept(c.e)
		}
		nt = nt || len(ids) > 0 || mt > now()
	}
	r.unchanged()
	if nt {
		t.NonTrivial()
	}
}

// timesRun gives one miner one target on a head whose timestamps are in the
// way; proof of work is easy, and the miner is left to itself after its first block.
func timesRun(t *pbt.T) {
	r := base(t, 8, func(r *rig) { r.b = bus.NewBus(); r.iv = inv.NewInv(r.p, nil); r.cands = r.b.CandidateHead.Sub() })
	if r.future == 0 {
		r.future = 60 + t.Draw(3300)
		r.base = now() + r.future
		r.tight = t.Intn(4) > 0
	}
	parent := r.w.Root
	n := t.Intn(2*int(r.p.DifficultyPeriod) + 1)
	if t.Intn(3) > 0 && n > 0 { // the target is for the last block of a period
		n -= (n + 2) % int(r.p.DifficultyPeriod)
	}
	for k := 0; k < n; k++ {
		s := r.grow(parent, 0)
		if s.Block.MinedTime > now()+3500 {
			break
		}
		r.store(s)
		parent = r.put(s)
		if r.w.LedgerAt(parent).Bad != "" {
			t.Discard()
		}
		t.Note("block %d: time now%+d", parent.Height, int64(s.Block.MinedTime)-int64(now()))
	}
	mt := r.w.MinTime(parent)
	if parent.Height > 0 && mt > now()+3500 {
		t.Discard()
	}
	pkh := gen.K(20).Pkh
	r.pay = []core.HashT{pkh}
	go miner.NewMiner(miner.NewParams(pkh), r.b, r.iv).Loop()
	defer r.stop()
	g := bus.MinerTargetEvent{Head: parent.Id, Target: r.w.NextTarget(parent)}
	t.Note("target on %s (height %d), least time now%+d", short(parent.Id), parent.Height, int64(mt)-int64(now()))
	r.targs = append(r.targs, g)
	r.b.MinerTarget.Pub(g)
	c, ok := r.next(time.Now().Add(patience))
	if !ok {
		t.Fail("nothing-found", "a miner publishes no block for its target within %v, about 1 in 2^11 hashes would do", patience)
	}
	r.judge(c.e)
	r.accept(c.e)
	r.cands.Close()
	if parent.Height > 0 && mt > now() {
		t.NonTrivial()
		if (parent.Height+2)%r.p.DifficultyPeriod == 0 && r.w.PeriodFirst(parent).B.MinedTime+1 >= mt {
			t.Label("the period's first block decides the least time")
		}
	}
}

// accept stores a published block as the node does.
func (r *rig) accept(e bus.CandidateHeadEvent) {
	for _, x := range e.Txs {
		if !r.iv.HasTx(x.Hash()) {
			if err := r.iv.StoreTx(x); err != nil {
				r.fail("refused-tx", e, "is refused: %v", err)
			}
		}
	}
	for _, m := range e.Merkles {
		if !r.iv.HasMerkle(m.Hash()) {
			if err := r.iv.StoreMerkle(m); err != nil {
				r.fail("refused-merkle", e, "is refused: %v", err)
			}
		}
	}
	for _, b := range e.Blocks {
		if !r.iv.HasBlock(b.Hash()) {
			if err := r.iv.StoreBlock(b); err != nil {
				r.fail("refused-block", e, "is refused: %v", err)
			}
		}
	}
}

// nodeRun lets miners work for a real node while transactions and rival blocks arrive.
func nodeRun(t *pbt.T) {
	drive.Real.Store(true)
	var d *drive.Node
	r := base(t, 14, func(r *rig) {
		r.p.DifficultyPeriod = 4 + uint64(t.Intn(3))
		r.p.BlockTargetTime = 1
		r.w.P = r.p
		d = drive.New(t, r.p, true, nil, nil)
		r.b, r.iv = d.Bus, d.Inv
		r.cands = r.b.CandidateHead.Sub()
	})
	heads := r.b.ValidatedHead.Sub()
	head := r.w.Root
	offer := func(parent *model.Block) *model.Block {
		s := r.grow(parent, 2)
		if s.Block.MinedTime > now()+3500 {
			return parent
		}
		nb := r.put(s)
		if r.w.LedgerAt(nb).Bad != "" {
			t.Discard()
		}
		d.OfferHead(bus.CandidateHeadEvent{Head: nb.Id, Blocks: []core.Block{s.Block}, Merkles: s.Merkles, Txs: s.Txs})
		t.Note("offered block %s height %d on %s, time now%+d", short(nb.Id), nb.Height, short(parent.Id), int64(s.Block.MinedTime)-int64(now()))
		return nb
	}
	t.Steps(0, 4, 6, func(int) { head = offer(head) })
	// targets so far and later
	pump := func() {
		for _, g := range d.Targets() {
			r.targs = append(r.targs, bus.MinerTargetEvent{Head: g.Head, Target: g.Target, TxIds: append([]core.HashT{}, g.TxIds...)})
		}
	}
	pump()
	r.start()
	defer r.stop()
	for {
		if _, ok := heads.Pop(); !ok {
			break
		}
	}
	// make the node give the miners a target
	if t.Bool() {
		head = offer(head)
	} else if tx, _ := gen.SpendTx(t, gen.Coins(r.w.LedgerAt(head)), head.Height+1); len(tx.Inputs) > 0 && model.TxVSize(tx) <= r.p.MaxTxVSize {
		if d.OfferTx(tx) != nil {
			t.Discard()
		}
		r.w.PutTx(tx)
		t.Note("pending %s", short(model.Tid(tx)))
	} else {
		head = offer(head)
	}
	mined := 0
	fees := false
	judged := map[core.HashT]bool{}
	rounds := 2 + t.Intn(4)
	for k := 0; k < rounds; k++ {
		// until the miners advance the head
		until := time.Now().Add(patience)
		for {
			adv := false
			for {
				h, ok := heads.Pop()
				if !ok {
					break
				}
				if x, ok := r.w.Blocks[h.Head]; ok && x.Work.Cmp(head.Work) > 0 {
					head = x
					if judged[h.Head] {
						adv = true
						mined++
						fees = fees || len(x.TxIds) > 1
						t.Note("mined block %s height %d adopted, %d txs", short(x.Id), x.Height, len(x.TxIds))
					}
				}
			}
			pump()
			if adv {
				break
			}
			e, ok := r.cands.Pop()
			if ok {
				if _, known := r.w.Blocks[e.Head]; !known {
					time.Sleep(20 * time.Millisecond)
					pump()
					r.seen = append(r.seen, cand{e: e, copy: snapshot(e)})
					r.judge(e)
					judged[e.Head] = true
				}
				continue
			}
			if time.Now().After(until) {
				t.Fail("stalled", "no block of the miners becomes the node's head within %v (%d found and checked so far)", patience, len(judged))
			}
			time.Sleep(10 * time.Millisecond)
		}
		if k == rounds-1 {
			break
		}
		switch t.Weighted(5, 3, 1) {
		case 0: // transactions arrive
			t.Steps(0, 2, 5, func(int) {
				coins := gen.Coins(r.w.LedgerAt(head))
				if len(coins) == 0 {
					return
				}
				tx, _ := gen.SpendTx(t, coins, head.Height+1)
				if len(tx.Inputs) == 0 || model.TxVSize(tx) > r.p.MaxTxVSize {
					return
				}
				if _, ok := r.w.Txs[model.Tid(tx)]; ok {
					return
				}
				r.w.PutTx(tx)
				ret := make(chan error, 1)
				r.b.CandidateTx.Pub(bus.CandidateTxEvent{Ret: ret, Tx: tx})
				t.Note("pending %s", short(model.Tid(tx)))
			})
		case 1: // a rival block
			x := head
			if x.Parent != nil && t.Bool() {
				x = x.Parent
			}
			s := r.grow(x, 2)
			if s.Block.MinedTime > now()+3500 {
				break
			}
			nb := r.put(s)
			if r.w.LedgerAt(nb).Bad != "" {
				t.Discard()
			}
			r.b.CandidateHead.Pub(bus.CandidateHeadEvent{Head: nb.Id, Blocks: []core.Block{s.Block}, Merkles: s.Merkles, Txs: s.Txs})
			t.Note("rival block %s height %d on %s", short(nb.Id), nb.Height, short(x.Id))
		}
	}
	r.stop()
	time.Sleep(400 * time.Millisecond)
	pump()
	for {
		e, ok := r.cands.Pop()
		if !ok {
			break
		}
		if _, known := r.w.Blocks[e.Head]; !known {
			r.judge(e)
			judged[e.Head] = true
		}
	}
	// all of them are accepted
	until := time.Now().Add(patience)
	for id := range judged {
		for !r.iv.HasBlock(id) {
			if time.Now().After(until) {
				t.Fail("not-accepted", "a valid block published by a miner is not accepted by the node")
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	r.unchanged()
	t.Label(fmt.Sprintf("mined and adopted: %d", mined))
	if mined >= 2 && fees {
		t.NonTrivial()
	}
}

func TestPBT(tt *testing.T) {
	pbt.Main(tt, []pbt.Arm{
		{Name: "targets", Quick: 48, Thorough: 1500, Chunk: 4, Par: 1, StallS: 200, Retry: true, Workers: 8, Run: targetsRun,
			Rule: "a ledger of 0-8 blocks (timestamps anywhere the rules allow, a third ahead of the clock), 1-3 real miners (same or own addresses) given 1-3 mining targets with 0-40 transactions; every published block checked against the reference rules and the target; non-trivial: a target with transactions, or whose least allowed time is ahead of the clock"},
		{Name: "times", Quick: 400, Thorough: 12000, Chunk: 10, Par: 1, StallS: 200, Retry: true, Workers: 8, Run: timesRun,
			Rule: "chains of up to two difficulty periods whose timestamps are ahead of the clock, mostly within seconds of each other with a period's first block among the latest; one miner's first block is checked against the reference rules; non-trivial: the least time a next block may have is ahead of the clock"},
		{Name: "node", Quick: 16, Thorough: 700, Chunk: 4, Par: 1, StallS: 200, Retry: true, Workers: 6, Run: nodeRun,
			Rule: "real node and 1-3 real miners in real time; transactions and rival blocks arrive while they mine 2-5 blocks; every published block checked and found adopted or stored; non-trivial: two mined blocks adopted, one with transactions"},
	})
}
