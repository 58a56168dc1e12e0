//go:build go1.25

// Package history offers generated histories of chain segments and transactions
// to a running node and compares everything it announces and answers with the
// reference node.
package history

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/zverif/drive"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
	"github.com/levilutz/basiccoin/pkg/core"
)

func init() {
	// the node prints a line per rewound block
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		if os.Getenv("PBT_LOUD") == "" {
			os.Stdout = f
		}
	}
}

// Focus weighs the steps and names the mismatches that count.
type Focus struct {
	W     []int // extend, fork, bad block, withheld, perturbed, candidate tx, clock, noise, burst
	AvgTx int
	Own   []string // kinds of mismatch that concern the property; a prefix ends with *
	// Extra is called after every step when nothing else differs.
	Extra func(h *H)
	Steps int
	Grow  int // most initial blocks, 6 if 0
	NT    func(h *H) bool
}

var defaultW = []int{6, 5, 4, 4, 3, 4, 1, 1, 2}

// H is the machine.
type H struct {
	T       *pbt.T
	S       *model.World // everything generated, offered or not
	N       *model.Node  // the reference node
	D       *drive.Node  // the real node
	F       Focus
	specs   map[core.HashT]gen.Spec // by block id
	blocks  []*model.Block          // blocks of S in order of creation
	salt    uint64
	Reorgs  int
	Bads    int
	found   [][2]string
	listed  int
	Targets int
	nHeads  int
	// Limbo holds transactions stored before a restart; they may or may not be pending.
	Limbo map[core.HashT]bool
	nTxs  int
	// strangers is how many payees without keys there are
	strangers int
}

// New makes a machine around an existing node.
func New(t *pbt.T, p core.Params, d *drive.Node, f Focus) *H {
	h := &H{T: t, S: model.NewWorld(p, rules.Now), N: model.NewNode(p, rules.Now), D: d, F: f,
		specs: map[core.HashT]gen.Spec{}}
	h.blocks = []*model.Block{h.S.Root}
	t.Note("%s", gen.ParamsLine(p))
	return h
}

func (h *H) own(kind string) bool {
	for _, o := range h.F.Own {
		if o == kind || (strings.HasSuffix(o, "*") && strings.HasPrefix(kind, o[:len(o)-1])) {
			return true
		}
	}
	return false
}

// differ notes a mismatch.
func (h *H) differ(kind, format string, a ...any) {
	h.found = append(h.found, [2]string{kind, fmt.Sprintf(format, a...)})
}

// settle fails for the first noted mismatch of the property under test; a
// mismatch that concerns only other properties ends the case.
func (h *H) settle() {
	for _, f := range h.found {
		if h.own(f[0]) {
			h.T.Fail(f[0], "%s", f[1])
		}
	}
	if len(h.found) > 0 {
		h.T.Label("stopped: mismatch of another property: " + h.found[0][0])
		h.T.Discard()
	}
}

func short(x core.HashT) string { return x.String()[:8] }

// Build makes a block on parent with the given transactions and puts it into S.
func (h *H) Build(parent *model.Block, txs []core.Tx) *model.Block {
	t := h.T
	h.salt++
	tg := gen.NextBlockTarget(t, h.S, parent)
	s := gen.Block(h.S, parent, txs, gen.BlockOpts{
		Pay: gen.K(t.Intn(gen.NKeys)).Pkh, Time: gen.BlockTime(t, h.S, parent), Target: &tg,
		Shape: gen.Shape(t), Salt: h.salt,
	})
	return h.Put(parent, s)
}

// Put puts a block into S; nil if the rules refuse it (say, its time has not come).
func (h *H) Put(parent *model.Block, s gen.Spec) *model.Block {
	for _, tx := range s.Txs {
		if r := h.S.CheckTx(tx); !r.Ok() {
			return nil
		}
		h.S.PutTx(tx)
	}
	for _, m := range s.Merkles {
		if r := h.S.CheckMerkle(m); !r.Ok() {
			return nil
		}
		h.S.PutMerkle(m)
	}
	if r := h.S.CheckBlock(s.Block); !r.Ok() {
		return nil
	}
	b := h.S.PutBlock(s.Block)
	h.specs[b.Id] = s
	h.blocks = append(h.blocks, b)
	bad := ""
	if l := h.S.LedgerAt(b); l.Bad != "" {
		bad = " (bad: " + l.Bad + ")"
	}
	h.T.Note("make block %s on %s height %d time now%+d with %d txs%s", short(b.Id), short(parent.Id), b.Height,
		int64(b.B.MinedTime-h.S.Now()), len(s.Txs)-1, bad)
	for _, tx := range s.Txs[1:] {
		h.T.Note("   %s", rules.TxLine(tx))
	}
	return b
}

// SpecOf is what a block of S is made of.
func (h *H) SpecOf(id core.HashT) gen.Spec { return h.specs[id] }

// Extend builds a valid block (if the parent's chain is valid).
func (h *H) Extend(parent *model.Block, avg int) *model.Block {
	l := h.S.LedgerAt(parent)
	var txs []core.Tx
	if l.Bad == "" {
		var extra []core.Tx
		for _, id := range h.N.Pending() {
			if len(extra) < 6 {
				extra = append(extra, h.N.W.Txs[id])
			}
		}
		txs = gen.Fill(h.T, h.S, l, parent.Height+1, avg, 5, extra)
	}
	return h.Build(parent, txs)
}

// sOf finds the reference node's block in S.
func (h *H) sOf(b *model.Block) *model.Block { return h.S.Blocks[b.Id] }

// Bad builds a block each of whose parts is valid by itself but which breaks the ledger.
func (h *H) Bad(parent *model.Block) *model.Block {
	t := h.T
	l := h.S.LedgerAt(parent)
	if l.Bad != "" || parent.Height == 0 {
		return nil
	}
	chain := model.Chain(parent)
	old := func() (core.Tx, bool) { // a transaction of the chain with inputs
		var c []core.Tx
		for _, b := range chain {
			if b.Height == 0 {
				continue
			}
			for _, id := range b.TxIds {
				if len(h.S.Txs[id].Inputs) > 0 {
					c = append(c, h.S.Txs[id])
				}
			}
		}
		if len(c) == 0 {
			return core.Tx{}, false
		}
		return c[t.Intn(len(c))], true
	}
	base := gen.Fill(t, h.S, l, parent.Height+1, 1, 3, nil)
	at := t.Intn(len(base) + 1)
	insert := func(tx core.Tx) []core.Tx {
		return append(base[:at:at], append([]core.Tx{tx}, base[at:]...)...)
	}
	usable := func(u core.Utxo, pkh core.HashT) (gen.Coin, bool) {
		k := gen.Owner(pkh)
		return gen.Coin{U: u, K: k}, k != nil && u.Value > 0
	}
	spend := func(c gen.Coin) core.Tx {
		return gen.MakeTx(0, []gen.Coin{c}, []core.TxOut{{Value: t.Draw(c.U.Value), PublicKeyHash: gen.K(t.Intn(gen.NKeys)).Pkh}})
	}
	switch t.Intn(6) {
	case 0: // include an old transaction again
		if tx, ok := old(); ok {
			return h.Build(parent, insert(tx))
		}
	case 1: // spend an output spent earlier on the chain
		if tx, ok := old(); ok {
			in := tx.Inputs[t.Intn(len(tx.Inputs))]
			if c, ok := usable(in.Utxo, h.S.Txs[in.Utxo.TxId].Outputs[in.Utxo.Ind].PublicKeyHash); ok {
				return h.Build(parent, insert(spend(c)))
			}
		}
	case 2: // two transactions of the block spend the same output
		coins := gen.Coins(l)
		if len(coins) > 0 {
			c := coins[t.Intn(len(coins))]
			if c.U.Value > 1 {
				a, b := spend(c), spend(c)
				if model.Tid(a) != model.Tid(b) {
					return h.Build(parent, append(insert(a), b))
				}
			}
		}
	case 3: // spend an output that exists only on another branch
		var c []gen.Coin
		for _, b := range h.blocks {
			if m := h.S.LedgerAt(b); m.Bad == "" {
				for _, x := range gen.Coins(m) {
					if _, here := l.Included[x.U.TxId]; !here && x.U.Value > 0 && len(c) < 50 {
						c = append(c, x)
					}
				}
			}
		}
		if len(c) > 0 {
			return h.Build(parent, insert(spend(c[t.Intn(len(c))])))
		}
	case 4: // before its minimum height
		coins := gen.Coins(l)
		if len(coins) > 0 {
			c := coins[t.Intn(len(coins))]
			if c.U.Value > 0 {
				tx := gen.MakeTx(parent.Height+2+t.Draw(3), []gen.Coin{c}, []core.TxOut{{Value: c.U.Value - 1, PublicKeyHash: c.K.Pkh}})
				return h.Build(parent, insert(tx))
			}
		}
	case 5: // uses an output made later in the block
		coins := gen.Coins(l)
		if len(coins) > 0 {
			c := coins[t.Intn(len(coins))]
			if c.U.Value > 2 {
				a := gen.MakeTx(0, []gen.Coin{c}, []core.TxOut{{Value: c.U.Value - 1, PublicKeyHash: gen.K(0).Pkh}})
				h.S.PutTx(a)
				b := spend(gen.Coin{U: core.Utxo{TxId: model.Tid(a), Ind: 0, Value: c.U.Value - 1}, K: gen.K(0)})
				return h.Build(parent, []core.Tx{b, a})
			}
		}
	}
	return nil
}

// Segment collects all that the reference node lacks for a head, in order.
func (h *H) Segment(b *model.Block) bus.CandidateHeadEvent {
	e := bus.CandidateHeadEvent{Head: b.Id, Blocks: []core.Block{}, Merkles: []core.MerkleNode{}, Txs: []core.Tx{}}
	var todo []*model.Block
	for x := b; x != h.S.Root; x = x.Parent {
		if _, ok := h.N.W.Blocks[x.Id]; ok {
			break
		}
		todo = append([]*model.Block{x}, todo...)
	}
	seenT, seenM := map[core.HashT]bool{}, map[core.HashT]bool{}
	var need func(tx core.Tx)
	need = func(tx core.Tx) {
		id := model.Tid(tx)
		if _, ok := h.N.W.Txs[id]; ok || seenT[id] {
			return
		}
		seenT[id] = true
		for _, in := range tx.Inputs { // of bad blocks: outputs in no block of the segment
			if src, ok := h.S.Txs[in.Utxo.TxId]; ok {
				need(src)
			}
		}
		e.Txs = append(e.Txs, tx)
	}
	for _, x := range todo {
		s := h.specs[x.Id]
		for _, tx := range s.Txs {
			need(tx)
		}
		for _, m := range s.Merkles {
			if id := model.Mid(m); !seenM[id] {
				if _, ok := h.N.W.Merkles[id]; !ok {
					seenM[id] = true
					e.Merkles = append(e.Merkles, m)
				}
			}
		}
		e.Blocks = append(e.Blocks, s.Block)
	}
	return e
}

// perturb damages an offer.
func (h *H) perturb(e *bus.CandidateHeadEvent) {
	t := h.T
	what := ""
	switch t.Intn(9) {
	case 0:
		if n := len(e.Txs); n > 0 {
			i := t.Intn(n)
			what, e.Txs = "without a transaction", append(e.Txs[:i:i], e.Txs[i+1:]...)
		}
	case 1:
		if n := len(e.Merkles); n > 0 {
			i := t.Intn(n)
			what, e.Merkles = "without a merkle node", append(e.Merkles[:i:i], e.Merkles[i+1:]...)
		}
	case 2:
		if n := len(e.Blocks); n > 0 {
			i := t.Intn(n)
			what, e.Blocks = "without a block", append(e.Blocks[:i:i], e.Blocks[i+1:]...)
		}
	case 3:
		if n := len(e.Blocks); n > 1 {
			i := t.Intn(n - 1)
			e.Blocks = append([]core.Block{}, e.Blocks...)
			e.Blocks[i], e.Blocks[i+1] = e.Blocks[i+1], e.Blocks[i]
			what = "blocks swapped"
		}
	case 4:
		if n := len(e.Merkles); n > 1 {
			i := t.Intn(n - 1)
			e.Merkles = append([]core.MerkleNode{}, e.Merkles...)
			e.Merkles[i], e.Merkles[n-1] = e.Merkles[n-1], e.Merkles[i]
			what = "merkle nodes swapped"
		}
	case 5:
		if n := len(e.Txs); n > 1 {
			p := t.Perm(n)
			txs := make([]core.Tx, n)
			for i := range p {
				txs[i] = e.Txs[p[i]]
			}
			what, e.Txs = "transactions shuffled", txs
		}
	case 6: // everything twice
		what = "everything twice"
		e.Txs = append(e.Txs, e.Txs...)
		e.Merkles = append(e.Merkles, e.Merkles...)
		e.Blocks = append(e.Blocks, e.Blocks...)
	case 7: // the last block without its work
		if n := len(e.Blocks); n > 0 {
			e.Blocks = append([]core.Block{}, e.Blocks...)
			b := gen.Unmine(e.Blocks[n-1], t.Draw(100))
			e.Blocks[n-1] = b
			e.Head = model.Bid(b)
			what = "last block without work"
		}
	case 8: // another head is named
		what = "another head"
		switch t.Intn(3) {
		case 0:
			e.Head = model.T(t.Hash32())
		case 1:
			e.Head = h.blocks[t.Intn(len(h.blocks))].Id
		case 2:
			if len(e.Blocks) > 1 {
				e.Head = model.Bid(e.Blocks[t.Intn(len(e.Blocks))])
			}
		}
	}
	if what != "" {
		t.Note("next offer: %s", what)
	}
}

// Offer offers a chain segment to both nodes.
func (h *H) Offer(e bus.CandidateHeadEvent) {
	r := h.model(e)
	h.D.OfferHead(e)
	h.Compare(r)
}

func (h *H) model(e bus.CandidateHeadEvent) string {
	before := h.N.Head
	r := h.N.OfferHead(e)
	h.T.Label("offer:" + r)
	h.T.Note("offer head %s (%d txs, %d merkle nodes, %d blocks): %s", short(e.Head), len(e.Txs), len(e.Merkles), len(e.Blocks), r)
	if r == "reorg" {
		l := model.LCA(before, h.N.Head)
		d := before.Height - l.Height
		h.T.Label(fmt.Sprintf("reorg depth %d", min(d, 9)))
		h.Reorgs++
	} else if r != "advance" && r != "not-heavier" {
		h.Bads++
	}
	h.follow()
	return r
}

// follow puts what the reference node stored into S, too.
func (h *H) follow() {
	for ; h.nTxs < len(h.N.W.TxOrder); h.nTxs++ {
		id := h.N.W.TxOrder[h.nTxs]
		if _, ok := h.S.Txs[id]; !ok {
			h.S.PutTx(h.N.W.Txs[id])
		}
	}
}

// Tx offers a transaction to both nodes.
func (h *H) Tx(tx core.Tx, why string) {
	r := h.N.OfferTx(tx)
	h.follow()
	if id := model.Tid(tx); h.Limbo[id] {
		delete(h.Limbo, id)
		h.D.Quiet = id
		defer func() { h.D.Quiet = core.HashT{} }()
	}
	h.T.Label("candidate:" + r.String())
	h.T.Note("candidate %s%s: %s", why, rules.TxLine(tx), r)
	err := h.D.OfferTx(tx)
	if r.Ok() && err != nil {
		h.differ("candidate-refused", "the node refuses a valid transaction: %s: %v", rules.TxLine(tx), err)
	} else if !r.Ok() && err == nil {
		h.differ("candidate-accepted:"+r.R[0], "the node accepts an invalid transaction (%s): %s", r, rules.TxLine(tx))
	}
	h.Compare("candidate")
}

// CandidateTx draws a transaction over the head's coins or over pending outputs.
func (h *H) CandidateTx() (core.Tx, string, bool) {
	t := h.T
	l := h.N.Ledger()
	pend := h.N.Pending()
	switch t.Weighted(5, 2, 2, 1) {
	case 1: // over a pending transaction's outputs
		if len(pend) > 0 {
			id := pend[t.Intn(len(pend))]
			var coins []gen.Coin
			for i, o := range h.N.W.Txs[id].Outputs {
				if k := gen.Owner(o.PublicKeyHash); k != nil {
					coins = append(coins, gen.Coin{U: core.Utxo{TxId: id, Ind: uint64(i), Value: o.Value}, K: k})
				}
			}
			if len(coins) > 0 {
				tx, _ := gen.SpendTx(t, coins, h.N.Head.Height+1)
				return tx, "on pending ", len(tx.Inputs) > 0
			}
		}
	case 2: // conflicting with a pending one
		if len(pend) > 0 {
			p := h.N.W.Txs[pend[t.Intn(len(pend))]]
			if len(p.Inputs) > 0 {
				in := p.Inputs[t.Intn(len(p.Inputs))]
				if k := gen.Owner(h.N.W.Txs[in.Utxo.TxId].Outputs[in.Utxo.Ind].PublicKeyHash); k != nil {
					coins := []gen.Coin{{U: in.Utxo, K: k}}
					for _, c := range gen.Coins(l) {
						if c.U != in.Utxo && len(coins) < 3 {
							coins = append(coins, c)
						}
					}
					tx, _ := gen.SpendTx(t, coins, h.N.Head.Height+1)
					return tx, "conflicting ", len(tx.Inputs) > 0
				}
			}
		}
	case 3: // with a minimum height ahead
		coins := gen.Coins(l)
		if len(coins) > 0 {
			c := coins[t.Intn(len(coins))]
			if c.U.Value > 0 {
				return gen.MakeTx(h.N.Head.Height+t.Draw(4), []gen.Coin{c},
					[]core.TxOut{{Value: t.Draw(c.U.Value), PublicKeyHash: gen.K(t.Intn(gen.NKeys)).Pkh}}), "later ", true
			}
		}
	}
	coins := gen.Coins(l)
	if len(coins) == 0 {
		return core.Tx{}, "", false
	}
	tx, _ := gen.SpendTx(t, coins, h.N.Head.Height+1)
	return tx, "", len(tx.Inputs) > 0
}

// randomBlock of S, mostly a recent one.
func (h *H) randomBlock() *model.Block {
	n := len(h.blocks)
	if h.T.Bool() {
		k := min(n, 5)
		return h.blocks[n-1-h.T.Intn(k)]
	}
	return h.blocks[h.T.Intn(n)]
}

// Fork builds 1 to 5 blocks on some block.
func (h *H) Fork(parent *model.Block, most int) *model.Block {
	n := 1 + h.T.Intn(most)
	for i := 0; i < n; i++ {
		b := h.Extend(parent, h.F.AvgTx)
		if b == nil {
			break
		}
		parent = b
	}
	return parent
}

// forkPoint: an ancestor of the head a few blocks back.
func (h *H) forkPoint() *model.Block {
	b := h.sOf(h.N.Head)
	if h.T.Draw(4) == 3 {
		return h.randomBlock()
	}
	for i := h.T.Intn(5); i > 0 && b != h.S.Root; i-- {
		b = b.Parent
	}
	return b
}

// Step is one step.
func (h *H) Step() {
	t := h.T
	w := h.F.W
	if w == nil {
		w = defaultW
	}
	switch t.Weighted(w...) {
	case 0:
		if b := h.Extend(h.sOf(h.N.Head), h.F.AvgTx); b != nil {
			h.Offer(h.Segment(b))
		}
	case 1:
		b := h.Fork(h.forkPoint(), 5)
		if t.Draw(4) != 3 {
			h.Offer(h.Segment(b))
		}
	case 2:
		p := h.forkPoint()
		if t.Bool() {
			p = h.sOf(h.N.Head)
		}
		b := h.Bad(p)
		if b == nil {
			return
		}
		h.Bads++
		b = h.Fork(b, 3) // the bad block is buried
		h.Offer(h.Segment(b))
	case 3:
		h.Offer(h.Segment(h.randomBlock()))
	case 4:
		b := h.Fork(h.forkPoint(), 4)
		e := h.Segment(b)
		h.perturb(&e)
		h.Offer(e)
		if t.Bool() {
			h.Offer(h.Segment(b))
		}
	case 5:
		if tx, why, ok := h.CandidateTx(); ok {
			h.Tx(tx, why)
		}
	case 6:
		d := 1 + t.Draw(3) // every virtual second costs the polling of all subscriptions
		time.Sleep(time.Duration(d) * time.Second)
		t.Note("clock +%d", d)
	case 7:
		switch t.Intn(4) {
		case 0:
			h.Offer(bus.CandidateHeadEvent{Head: h.N.Head.Id})
		case 1:
			h.Offer(bus.CandidateHeadEvent{Head: model.T(t.Hash32())})
		case 2:
			h.Offer(bus.CandidateHeadEvent{})
		case 3:
			p := h.N.Pending()
			if len(p) > 0 {
				h.Tx(h.N.W.Txs[p[t.Intn(len(p))]], "again ")
			}
		}
	case 8: // several offers at once, handled in order
		n := 2 + t.Intn(3)
		var es []bus.CandidateHeadEvent
		what := ""
		for i := 0; i < n; i++ {
			b := h.Fork(h.forkPoint(), 3)
			e := h.Segment(b)
			if t.Draw(3) == 2 {
				h.perturb(&e)
			}
			es = append(es, e)
			what = "burst"
			if r := h.model(e); r == "advance" || r == "reorg" {
				what = "burst ending in adoption"
			}
		}
		for _, e := range es {
			h.D.Bus.CandidateHead.Pub(e)
		}
		h.D.Settle()
		h.Compare(what)
	}
}

// Start makes the machine with drawn parameters and a new node.
func Start(t *pbt.T, f Focus) *H {
	p := gen.Params(t)
	d := drive.New(t, p, true, nil, nil)
	return New(t, p, d, f)
}

// Run is one case.
func Run(t *pbt.T, f Focus) {
	h := Start(t, f)
	h.Compare("start")
	most := f.Steps
	if most == 0 {
		most = 30
	}
	// a chain to begin with
	grow := f.Grow
	if grow == 0 {
		grow = 6
	}
	n := t.Intn(grow + 1)
	for i := 0; i < n; i++ {
		if b := h.Extend(h.sOf(h.N.Head), f.AvgTx); b != nil {
			h.Offer(h.Segment(b))
		}
	}
	t.Steps(1, 10, most, func(int) { h.Step() })
	nt := h.Reorgs+h.Bads > 0
	if f.NT != nil {
		nt = f.NT(h)
	}
	if nt {
		t.NonTrivial()
	}
}

// Pkhs asked about: the generator's keys and a stranger.
func Pkhs() []core.HashT {
	return append(gen.Pkhs(gen.NKeys), gen.K(77).Pkh)
}

func sortedUtxos(m map[core.Utxo]core.HashT) string {
	var ls []string
	for u, o := range m {
		ls = append(ls, fmt.Sprintf("%s[%d]=%d to %s", short(u.TxId), u.Ind, u.Value, short(o)))
	}
	sort.Strings(ls)
	return strings.Join(ls, " ")
}

// Diff of two maps, empty if equal.
func Diff[K comparable, V comparable](got, want map[K]V, f func(K) string) string {
	var ls []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			ls = append(ls, fmt.Sprintf("%s missing (should be %v)", f(k), v))
		} else if g != v {
			ls = append(ls, fmt.Sprintf("%s is %v (should be %v)", f(k), g, v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			ls = append(ls, fmt.Sprintf("%s = %v is there but should not", f(k), v))
		}
	}
	sort.Strings(ls)
	if len(ls) > 6 {
		ls = append(ls[:6], "...")
	}
	return strings.Join(ls, "; ")
}

func utxoStr(u core.Utxo) string { return fmt.Sprintf("%s[%d]=%d", short(u.TxId), u.Ind, u.Value) }

// Compare compares everything observable.
func (h *H) Compare(what string) {
	h.CompareHeads(what)
	h.CompareLedger(what)
	h.CompareTargets(what)
	if len(h.found) == 0 && h.F.Extra != nil {
		h.F.Extra(h)
	}
	h.settle()
}

// CompareHeads compares the announcements.
func (h *H) CompareHeads(what string) {
	heads, want := h.D.Heads(), h.N.Adopted
	h.N.Adopted = nil
	if !equal(heads, want) {
		kind := "heads"
		if len(heads) > len(want) {
			kind = "adopted:" + what
		} else if len(heads) < len(want) {
			kind = "not-adopted"
		}
		h.differ(kind, "after %s the node announces heads %s, should announce %s", what, list(heads), list(want))
	}
	txs, wantTx := h.D.Txs(), h.N.Accepted
	h.N.Accepted = nil
	for i, id := range txs {
		if id == h.D.Quiet && id != (core.HashT{}) {
			txs = append(txs[:i:i], txs[i+1:]...)
			break
		}
	}
	if !equal(txs, wantTx) {
		h.differ("announced-txs", "after %s the node announces transactions %s, should announce %s", what, list(txs), list(wantTx))
	}
}

func list(ls []core.HashT) string {
	var s []string
	for _, x := range ls {
		s = append(s, short(x))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func equal(a, b []core.HashT) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// CompareLedger compares the ledger's answers over the bus.
func (h *H) CompareLedger(what string) {
	d, n := h.D, h.N
	l := n.Ledger()
	if g := d.Height(); g != n.Head.Height {
		h.differ("height", "after %s the node's height is %d, should be %d", what, g, n.Head.Height)
	}
	pkhs := Pkhs()
	for i := 1; i <= h.strangers; i++ {
		pkhs = append(pkhs, stranger(i))
	}
	bal := map[core.HashT]uint64{}
	for _, p := range pkhs {
		bal[p] = 0
	}
	all := l.Balances()
	for p, v := range all {
		if _, ok := bal[p]; ok {
			bal[p] = v
		}
	}
	if s := Diff(d.Balances(pkhs), bal, short); s != "" {
		h.differ("balances", "after %s, balances: %s", what, s)
	}
	us := d.Utxos(pkhs, false)
	if s := Diff(us, n.Utxos(pkhs, false), utxoStr); s != "" {
		h.differ("utxos", "after %s, unspent outputs: %s", what, s)
	}
	freed := d.Utxos(pkhs, true)
	wantFreed := n.Utxos(pkhs, true)
	h.inLimbo(freed, wantFreed)
	if s := Diff(freed, wantFreed, utxoStr); s != "" {
		h.differ("pending", "after %s, unspent outputs without those spent by pending transactions: %s", what, s)
	}
	ids := append([]core.HashT{}, h.S.TxOrder...)
	conf := map[core.HashT]uint64{}
	inc := map[core.HashT]core.HashT{}
	for _, id := range ids {
		if c, ok := n.Confirms(id); ok {
			conf[id] = c
			if b, ok := l.Included[id]; ok {
				inc[id] = b.Id
			}
		}
	}
	if s := Diff(d.Confirms(ids), conf, short); s != "" {
		h.differ("confirms", "after %s, confirmations: %s", what, s)
	}
	if s := Diff(d.Included(ids), inc, short); s != "" {
		h.differ("inclusion", "after %s, inclusion blocks: %s", what, s)
	}
	// every coin of the chain belongs to a generator key or a counted stranger
	rich := d.RichList(1 << 20)
	if s := Diff(rich, all, short); s != "" {
		h.differ("richlist", "after %s, rich list: %s", what, s)
	}
	sum := new(big.Int)
	for u := range us {
		sum.Add(sum, new(big.Int).SetUint64(u.Value))
	}
	wantSum := new(big.Int).Mul(new(big.Int).SetUint64(d.Inv.GetCoreParams().BlockReward), new(big.Int).SetUint64(d.Height()))
	if sum.Cmp(wantSum) != 0 {
		h.differ("supply", "after %s the unspent outputs add up to %s, %d blocks issue %s", what, sum, d.Height(), wantSum)
	}
}

// inLimbo drops the outputs spent only by transactions that may or may not be pending.
func (h *H) inLimbo(got, want map[core.Utxo]core.HashT) {
	if len(h.Limbo) == 0 {
		return
	}
	sure := map[core.Utxo]bool{}
	l := h.N.Ledger()
	for _, id := range h.N.Pending() {
		if !h.Limbo[id] {
			for _, in := range h.N.W.Txs[id].Inputs {
				sure[in.Utxo] = true
			}
		}
	}
	for id := range h.Limbo {
		if _, ok := l.Included[id]; ok {
			delete(h.Limbo, id) // when rewound it is pending
			continue
		}
		for _, in := range h.N.W.Txs[id].Inputs {
			if !sure[in.Utxo] {
				delete(got, in.Utxo)
				delete(want, in.Utxo)
			}
		}
	}
}

// CompareTargets checks published mining targets.
func (h *H) CompareTargets(what string) {
	ts := h.D.Targets()
	if strings.HasPrefix(what, "burst") && len(ts) > 0 {
		ts = ts[len(ts)-1:]
		if what != "burst ending in adoption" { // later offers may have added pending transactions
			ts = nil
		}
	}
	if what == "candidates" && len(ts) > 0 { // several were offered one after the other
		ts = ts[len(ts)-1:]
	}
	n := h.N
	for _, e := range ts {
		h.Targets++
		h.checkTarget(e, what)
	}
	if len(ts) > 0 {
		h.listed = max(h.listed, len(ts[len(ts)-1].TxIds))
		h.T.Label(fmt.Sprintf("target with %d txs", min(len(ts[len(ts)-1].TxIds), 6)))
	}
	if (what == "advance" || what == "reorg") && len(ts) == 0 {
		h.differ("target", "after %s no mining target is published for head %s", what, short(n.Head.Id))
	}
}

func (h *H) checkTarget(e bus.MinerTargetEvent, what string) {
	n := h.N
	w := n.W
	bad := func(format string, a ...any) {
		h.differ("target", "mining target after %s: %s", what, fmt.Sprintf(format, a...))
	}
	if e.Head != n.Head.Id {
		bad("names head %s, the head is %s", short(e.Head), short(n.Head.Id))
		return
	}
	if want := w.NextTarget(n.Head); e.Target != want {
		bad("names target %s, should be %s", e.Target, want)
	}
	size := uint64(model.CoinbaseSize)
	spent := map[core.Utxo]core.HashT{}
	listed := map[core.HashT]bool{}
	var prev *core.Tx
	for _, id := range e.TxIds {
		tx, ok := w.Txs[id]
		if !ok {
			bad("lists unknown %s", short(id))
			return
		}
		if listed[id] {
			bad("lists %s twice", short(id))
		}
		listed[id] = true
		if !n.Includable(id) {
			bad("lists %s, which cannot be in the next block", rules.TxLine(tx))
		}
		for _, in := range tx.Inputs {
			if o, ok := spent[in.Utxo]; ok {
				bad("lists conflicting %s and %s", short(o), short(id))
			}
			spent[in.Utxo] = id
		}
		size += model.TxVSize(tx)
		if prev != nil && rateLess(*prev, tx) {
			bad("lists %s before %s, which pays a higher fee rate", short(model.Tid(*prev)), short(id))
		}
		t := tx
		prev = &t
	}
	if size > w.P.MaxBlockVSize {
		bad("lists transactions of size %d with the coinbase, the limit is %d", size, w.P.MaxBlockVSize)
	}
	for _, id := range n.Pending() {
		if listed[id] || !n.Includable(id) || h.Limbo[id] {
			continue
		}
		tx := w.Txs[id]
		conflict := false
		for _, in := range tx.Inputs {
			if _, ok := spent[in.Utxo]; ok {
				conflict = true
			}
		}
		if !conflict && size+model.TxVSize(tx) <= w.P.MaxBlockVSize {
			bad("leaves out %s, which fits and conflicts with none", rules.TxLine(tx))
		}
	}
}

// rateLess says whether a's fee rate is below b's by more than rounding.
func rateLess(a, b core.Tx) bool {
	fa, fb := new(big.Rat).SetFrac64(fee(a), int64(model.TxVSize(a))), new(big.Rat).SetFrac64(fee(b), int64(model.TxVSize(b)))
	eps := big.NewRat(1, 1<<20)
	return fa.Cmp(new(big.Rat).Sub(fb, new(big.Rat).Mul(fb, eps))) < 0
}

func fee(t core.Tx) int64 { return int64(gen.Fees([]core.Tx{t})) }
