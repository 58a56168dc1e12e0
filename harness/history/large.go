//go:build go1.25

package history

import (
	"fmt"
	"path/filepath"

	"github.com/levilutz/basiccoin/internal/zverif/drive"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

// largeRun drives one node through few but large steps.
type largeRun struct {
	*H
	dir  *string
	path string
}

// stranger is a payee without a key.
func stranger(n int) core.HashT { return model.T(model.BytesHash([]byte(fmt.Sprint("stranger ", n)))) }

// LargeParams are generous.
func LargeParams(t *pbt.T) core.Params {
	easy := core.NewHashTFromStringAssert("3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
	return core.Params{
		BlockReward:      []uint64{1000, 131072, 1 << 40}[t.Intn(3)],
		DifficultyPeriod: []uint64{4, 8, 32, 128}[t.Intn(4)],
		BlockTargetTime:  []uint64{1, 10, 60}[t.Intn(3)],
		MaxBlockVSize:    []uint64{1 << 20, 1 << 15, 60000}[t.Weighted(3, 1, 1)],
		MaxTxVSize:       1 << 15,
		MaxTarget:        easy,
		OriginalTarget:   easy,
	}
}

// Next builds a block in step with the schedule.
func (r *H) Next(parent *model.Block, txs []core.Tx) *model.Block {
	t := r.T
	r.salt++
	w := r.S
	tm := parent.B.MinedTime + w.P.BlockTargetTime
	if parent == w.Root {
		tm = w.Now() - 90000
	} else if t.Draw(8) == 7 {
		tm += t.Draw(2*w.P.BlockTargetTime + 1)
	}
	tm = min(max(tm, w.MinTime(parent)), w.Now()+3600)
	tg := w.NextTarget(parent)
	shape := 0
	if len(txs) > 1 {
		shape = t.Weighted(4, 1, 1)
	}
	s := gen.Block(w, parent, txs, gen.BlockOpts{Pay: gen.K(t.Intn(gen.NKeys)).Pkh, Time: tm, Target: &tg, Shape: shape, Salt: r.salt})
	return r.Put(parent, s)
}

func (r *largeRun) size() int {
	switch r.T.Weighted(3, 3, 2) {
	case 0:
		return 5 + r.T.Intn(40)
	case 1:
		return 45 + r.T.Intn(100)
	}
	return 145 + r.T.Intn(160)
}

// Branch builds n blocks, some with transactions.
func (r *H) Branch(from *model.Block, n int) *model.Block {
	busy := r.T.Draw(3) == 2
	for i := 0; i < n; i++ {
		var txs []core.Tx
		if l := r.S.LedgerAt(from); l.Bad == "" && (busy || r.T.Draw(8) == 7) {
			txs = gen.Fill(r.T, r.S, l, from.Height+1, 1, 3, nil)
		}
		b := r.Next(from, txs)
		if b == nil {
			break
		}
		from = b
	}
	return from
}

// Crowd builds a block splitting a coin among n and one with as many transactions.
func (r *H) Crowd(from *model.Block, n int) *model.Block {
	l := r.S.LedgerAt(from)
	if l.Bad != "" {
		return from
	}
	for _, c := range gen.Coins(l) {
		if c.U.Value < 500 {
			continue
		}
		var out []core.TxOut
		for i := 0; i < min(n, int(c.U.Value)/3); i++ {
			out = append(out, core.TxOut{Value: 2, PublicKeyHash: gen.K(i % gen.NKeys).Pkh})
		}
		fan := gen.MakeTx(0, []gen.Coin{c}, out)
		b := r.Next(from, []core.Tx{fan})
		if b == nil {
			return from
		}
		var txs []core.Tx
		size := uint64(model.CoinbaseSize)
		for i := range out {
			u := core.Utxo{TxId: model.Tid(fan), Ind: uint64(i), Value: 2}
			tx := gen.MakeTx(0, []gen.Coin{{U: u, K: gen.K(i % gen.NKeys)}}, []core.TxOut{{Value: 1, PublicKeyHash: gen.K(r.T.Intn(gen.NKeys)).Pkh}})
			if size += model.TxVSize(tx); size > r.S.P.MaxBlockVSize {
				break
			}
			txs = append(txs, tx)
		}
		if d := r.Next(b, txs); d != nil {
			return d
		}
		return b
	}
	return from
}

// fan splits a coin among many payees, in the next block.
func (r *largeRun) fan() {
	t := r.T
	coins := gen.Coins(r.N.Ledger())
	if len(coins) == 0 {
		return
	}
	c := coins[0]
	for _, x := range coins { // the largest
		if x.U.Value > c.U.Value {
			c = x
		}
	}
	n := min(r.size(), int(c.U.Value)/2)
	if n < 1 {
		return
	}
	var out []core.TxOut
	each := (c.U.Value - 1) / uint64(n)
	strange := t.Draw(3)
	for i := 0; i < n; i++ {
		o := core.TxOut{Value: 1 + t.Draw(each), PublicKeyHash: gen.K(t.Intn(gen.NKeys)).Pkh}
		if strange == 2 || strange == 1 && t.Bool() {
			r.strangers++
			o.PublicKeyHash = stranger(r.strangers)
		}
		out = append(out, o)
	}
	tx := gen.MakeTx(0, []gen.Coin{c}, out)
	t.Note("a coin of %d split into %d", c.U.Value, n)
	if b := r.Next(r.sOf(r.N.Head), []core.Tx{tx}); b != nil {
		r.Offer(r.Segment(b))
	}
	if t.Draw(3) == 2 {
		r.flood()
	}
	if t.Draw(3) > 0 {
		r.fill()
	}
}

// spends makes up to n transactions of separate coins; some spend one made just before.
func (r *largeRun) spends(n int) []core.Tx {
	t := r.T
	coins := gen.Coins(r.N.Ledger())
	taken := r.N.PendingSpends()
	var txs []core.Tx
	for _, i := range t.Perm(len(coins)) {
		c := coins[i]
		if len(txs) >= n {
			break
		}
		if c.U.Value < 2 || taken[c.U] {
			continue
		}
		txs = append(txs, gen.MakeTx(0, []gen.Coin{c}, []core.TxOut{{Value: c.U.Value - 1 - t.Draw(c.U.Value-1), PublicKeyHash: gen.K(t.Intn(gen.NKeys)).Pkh}}))
		if o := txs[len(txs)-1].Outputs[0]; o.Value > 1 && t.Draw(8) == 7 {
			u := core.Utxo{TxId: model.Tid(txs[len(txs)-1]), Value: o.Value}
			txs = append(txs, gen.MakeTx(0, []gen.Coin{{U: u, K: gen.Owner(o.PublicKeyHash)}},
				[]core.TxOut{{Value: o.Value - 1, PublicKeyHash: gen.K(t.Intn(gen.NKeys)).Pkh}}))
		}
	}
	return txs
}

// flood offers many transactions one after the other.
func (r *largeRun) flood() {
	n := 0
	for _, tx := range r.spends(r.size()) {
		res := r.N.OfferTx(tx)
		r.follow()
		if err := r.D.OfferTx(tx); res.Ok() != (err == nil) {
			kind := "candidate-refused"
			if err == nil {
				kind = "candidate-accepted:" + res.R[0]
			}
			r.differ(kind, "the node says %v to a transaction that should give %s", err, res)
		}
		n++
	}
	r.T.Note("%d candidates", n)
	r.T.Label(fmt.Sprintf("flood of %d+", n/50*50))
	if n > 40 {
		r.T.NonTrivial()
	}
	r.Compare("candidates")
}

// fill builds a block of many transactions: of pending ones, of new ones.
func (r *largeRun) fill() {
	t := r.T
	head := r.sOf(r.N.Head)
	l := gen.CopyLedger(r.N.Ledger())
	size := uint64(model.CoinbaseSize)
	var txs []core.Tx
	add := func(tx core.Tx) {
		if _, ok := l.Included[model.Tid(tx)]; ok || size+model.TxVSize(tx) > r.S.P.MaxBlockVSize {
			return
		}
		for _, in := range tx.Inputs {
			if _, ok := l.Utxos[in.Utxo]; !ok {
				return
			}
		}
		size += model.TxVSize(tx)
		txs = append(txs, tx)
		gen.Put(l, tx)
		l.Included[model.Tid(tx)] = nil
	}
	if t.Draw(3) > 0 {
		for _, id := range r.N.Pending() {
			if tx := r.N.W.Txs[id]; !tx.IsCoinbase && tx.MinBlock <= head.Height+1 {
				add(tx)
			}
		}
	}
	if len(txs) == 0 || t.Bool() {
		for _, tx := range r.spends(r.size()) {
			add(tx)
		}
	}
	if t.Draw(4) == 3 && len(txs) > 1 { // breaks the ledger near the end
		last := txs[len(txs)-1]
		if in := last.Inputs[0]; true {
			k := gen.Owner(r.S.LedgerAt(head).Utxos[in.Utxo])
			if k != nil && in.Utxo.Value > 1 {
				bad := gen.MakeTx(1, []gen.Coin{{U: in.Utxo, K: k}}, []core.TxOut{{Value: in.Utxo.Value - 1, PublicKeyHash: stranger(0)}})
				if r.S.CheckTx(bad).Ok() && size+model.TxVSize(bad) <= r.S.P.MaxBlockVSize {
					t.Note("the block's last transaction spends an output again")
					if b := r.Next(head, append(txs[:len(txs):len(txs)], bad)); b != nil {
						r.Offer(r.Segment(b))
					}
				}
			}
		}
	}
	if b := r.Next(head, txs); b != nil {
		if len(txs) > 40 {
			t.NonTrivial()
		}
		t.Label(fmt.Sprintf("block of %d+ txs", len(txs)/50*50))
		r.Offer(r.Segment(b))
	}
}

// long offers a long branch, whole or in two parts.
func (r *largeRun) long() {
	t := r.T
	at := r.sOf(r.N.Head)
	back := 0
	if t.Draw(4) > 0 {
		back = r.size()
	}
	for ; back > 0 && at != r.S.Root; back-- {
		at = at.Parent
	}
	depth := int(r.N.Head.Height - at.Height)
	n := r.size()
	if depth > 0 {
		n = depth + 1 + t.Intn(3)
		if t.Draw(5) == 4 {
			n = depth
		}
	}
	b := r.Branch(at, n)
	if depth > 16 || n > 40 {
		t.NonTrivial()
	}
	t.Label(fmt.Sprintf("branch %d+ deep", depth/50*50))
	if mid := b; t.Draw(3) == 2 && n > 2 {
		for i := t.Intn(n - 1); i > 0 && mid.Parent != at; i-- {
			mid = mid.Parent
		}
		r.Offer(r.Segment(mid))
	}
	r.Offer(r.Segment(b))
}

// old offers another earlier branch's tip again, or extends it.
func (r *largeRun) old() {
	b := r.randomBlock()
	if r.T.Bool() && r.S.LedgerAt(b).Bad == "" {
		b = r.Branch(b, 1+r.T.Intn(3))
	}
	r.Offer(r.Segment(b))
}

// restart opens the save directory anew.
func (r *largeRun) restart() {
	if r.dir == nil {
		return
	}
	r.T.Note("restart")
	path := filepath.Join(r.T.TempDir(), "save")
	readTree(*r.dir).write(path)
	r.dir = &path
	r.D = drive.New(r.T, r.S.P, true, r.dir, r.dir)
	if r.Limbo == nil {
		r.Limbo = map[core.HashT]bool{}
	}
	for _, id := range r.N.Pending() {
		r.Limbo[id] = true
	}
	for _, x := range r.D.Heads() {
		if x != r.N.Head.Id {
			r.differ("restart", "after a restart the node announces head %s, the head is %s", short(x), short(r.N.Head.Id))
		}
	}
	r.D.Txs()
	if ts := r.D.Targets(); len(ts) > 0 {
		r.checkTarget(ts[len(ts)-1], "restart")
	}
	r.Compare("restart")
}

func runLarge(t *pbt.T, own []string, saved bool) {
	p := LargeParams(t)
	r := &largeRun{}
	if saved {
		d := filepath.Join(t.TempDir(), "save")
		tree{"./": ""}.write(d)
		r.dir = &d
	}
	r.H = New(t, p, drive.New(t, p, true, r.dir, r.dir), Focus{Own: own, AvgTx: 1})
	r.Compare("start")
	n := 2 + t.Intn(20)
	if t.Bool() {
		n = r.size()
	}
	r.Offer(r.Segment(r.Branch(r.S.Root, n)))
	restart := 0
	if saved {
		restart = 5
	}
	t.Steps(2, 5, 9, func(int) {
		switch t.Weighted(4, 2, 2, 4, 1, restart) {
		case 0:
			r.fan()
		case 1:
			r.flood()
		case 2:
			r.fill()
		case 3:
			if len(r.blocks) < 900 {
				r.long()
			}
		case 4:
			r.old()
		case 5:
			r.restart()
		}
		for _, max := range []uint64{1, uint64(1 + t.Intn(20)), uint64(20 + t.Intn(400))} {
			if s := richDiff(r.D.RichList(max), r.N.Ledger().Balances(), max); s != "" {
				r.differ("richlist", "rich list of %d: %s", max, s)
			}
		}
		r.settle()
	})
}

const largeRule = " Few but large steps against a running node: coins split among up to 300 payees, up to 300 transactions pending, blocks of up to " +
	"300 transactions, branches of up to 300 blocks and as deep reorganisations, at once or in parts, richlists of hundreds; everything compared " +
	"as in the histories. Non-trivial: a block or flood of more than 40 transactions, a branch of more than 40 blocks or a reorganisation over 16."

func armLarge(quick, thorough int, saved bool, own ...string) pbt.Arm {
	what := "Large histories."
	if saved {
		what = "Large histories with restarts over the save directory."
	}
	return pbt.Arm{Name: "history-large", Rule: what + largeRule, Quick: quick, Thorough: thorough, Chunk: 6, Bubble: true, MemMB: 4096, StallS: 120,
		Run: func(t *pbt.T) { runLarge(t, own, saved) }}
}

// The large histories of the properties.
var (
	LargeCoins   = armLarge(48, 1000, false, "supply", "adopted:bad-tx*")
	LargeSpend   = armLarge(48, 1000, false, "utxos", "adopted:*", "candidate-accepted:*")
	LargeShape   = armLarge(48, 1000, false, "adopted:*", "not-adopted", "candidate-refused")
	LargeChoice  = armLarge(96, 1500, false, "heads", "adopted:*", "not-adopted", "height", "no-answer*")
	LargeReplay  = armLarge(96, 1500, false, "balances", "utxos", "pending", "confirms", "inclusion", "richlist", "supply", "not-adopted", "target", "no-answer*")
	LargeQueries = armLarge(72, 1200, false, "balances", "utxos", "pending", "confirms", "inclusion", "richlist", "height", "no-answer*")
	LargeTargets = armLarge(72, 1200, false, "target")
	LargeRestart = armLarge(72, 1200, true, "restart", "not-adopted", "adopted:*", "heads", "target", "balances", "utxos", "no-answer*")
)
