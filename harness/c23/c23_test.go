//go:build go1.25

package c23

import (
	"crypto/ecdsa"
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

const (
	inSize  = 48 + 91 + 72 // an input with the longest signature
	outSize = 40
	txBase  = 72
)

// wallet is a set of coins of some keys, all known to a node's inventory.
type wallet struct {
	t     *pbt.T
	p     core.Params
	iv    *inv.Inv
	w     *model.World
	keys  []*gen.Key
	privs []*ecdsa.PrivateKey
	coins map[core.Utxo]core.HashT
	total uint64
	vals  []uint64 // descending
	given []*gen.Key
	rate  float64
	min   uint64
}

func rates(t *pbt.T) float64 {
	switch t.Weighted(10, 8, 6, 2, 1) {
	case 0:
		return 1
	case 1:
		return []float64{0.5, 2.5, 0.1, 3, 1.37, 10}[t.Intn(6)]
	case 2: // so low that the fee rounds to nothing
		return []float64{0, 0.001, 0.0001, 1e-9, 0.003}[t.Intn(5)]
	case 3:
		return []float64{100, 1e4, 1e7, 1e12, 1e16, 3e16}[t.Intn(6)]
	}
	return []float64{1e17, 1e18, 1e30, math.Inf(1), math.NaN(), -1, -1e30}[t.Intn(7)]
}

func newWallet(t *pbt.T) *wallet {
	p := core.DevNetParams()
	p.BlockReward = 1
	p.MaxTxVSize = []uint64{16384, 2000, 1000, 500, 400, 300}[t.Weighted(9, 3, 2, 2, 1, 1)] + t.Draw(50)
	w := &wallet{t: t, p: p, iv: inv.NewInv(p, nil), coins: map[core.Utxo]core.HashT{}, w: model.NewWorld(p, func() uint64 { return 0 })}
	nk := t.Range(1, 4)
	if t.Chance(6) {
		nk = t.Range(5, 12)
	}
	for i := 0; i < nk; i++ {
		w.keys = append(w.keys, gen.K(i))
	}
	for _, i := range t.Perm(nk) {
		w.given = append(w.given, w.keys[i])
	}
	nk = len(w.keys)
	scale := t.Weighted(6, 1, 3, 3, 1)
	multi := t.Chance(35)
	max := []int{6, 14, 14, 100, 14}[t.Weighted(4, 3, 2, 1, 1)]
	var outs []core.TxOut
	t.Steps(0, max, max, func(i int) {
		var v uint64
		switch scale {
		case 0:
			v = 1 + t.Draw(20000)
		case 1:
			v = 1 + t.Draw(300)
		case 2:
			v = uint64(1) << t.Draw(50)
		case 3:
			v = []uint64{1000, 500, 211, 212, 283}[t.Intn(5)]
		default:
			v = 1 + t.U64()/200
		}
		if multi && t.Chance(8) {
			v = 0
		}
		outs = append(outs, core.TxOut{Value: v, PublicKeyHash: w.keys[t.Intn(nk)].Pkh})
	})
	w.store(outs, multi)
	sort.Slice(w.vals, func(i, j int) bool { return w.vals[i] > w.vals[j] })
	for _, k := range w.given {
		priv := *k.Priv
		w.privs = append(w.privs, &priv)
	}
	if t.Chance(1) { // very many keys, at any place among the others
		var more []*ecdsa.PrivateKey
		for i := 0; i < 230; i++ {
			more = append(more, gen.K(20+i).Priv)
		}
		if t.Bool() {
			w.privs = append(more, w.privs...)
		} else {
			w.privs = append(w.privs, more...)
		}
	}
	if t.Chance(20) { // unrelated keys and repeated ones
		w.privs = append(w.privs, gen.K(17).Priv, w.privs[0])
		w.given = append(w.given, gen.K(17))
	}
	w.rate = rates(t)
	w.min = []uint64{0, 1, 7}[t.Intn(3)]
	show := w.vals
	if len(show) > 15 {
		show = show[:15]
	}
	t.Note("%d coins %v of %d keys, total %d; rate %g, max tx size %d", len(w.vals), show, nk, w.total, w.rate, p.MaxTxVSize)
	return w
}

// store makes the coins known, each as the output of a coinbase or as one of several outputs of a payment.
func (w *wallet) store(outs []core.TxOut, multi bool) {
	t := w.t
	put := func(tx core.Tx) {
		if err := w.iv.StoreTx(tx); err != nil {
			t.Fail("store", "a transaction that makes coins is refused: %v", err)
		}
		w.w.PutTx(tx)
	}
	room := 0
	if w.p.MaxTxVSize > txBase+inSize+outSize {
		room = int(w.p.MaxTxVSize-txBase-inSize) / outSize
	}
	for h := uint64(1); len(outs) > 0; h++ {
		if !multi || room < 2 || (len(outs) > 1 && t.Chance(20)) {
			o := outs[0]
			outs = outs[1:]
			if o.Value == 0 {
				o.Value = 1
			}
			tx := gen.Coinbase(h, o.Value, o.PublicKeyHash)
			put(tx)
			w.coin(core.Utxo{TxId: model.Tid(tx), Value: o.Value}, o.PublicKeyHash)
			continue
		}
		n := t.Range(2, 20)
		if n > room {
			n = room
		}
		if n > len(outs) {
			n = len(outs)
		}
		sum := uint64(1)
		for _, o := range outs[:n] {
			sum += o.Value
		}
		from := gen.K(18)
		base := gen.Coinbase(h, sum, from.Pkh)
		put(base)
		tx := gen.MakeTx(0, []gen.Coin{{U: core.Utxo{TxId: model.Tid(base), Value: sum}, K: from}}, append([]core.TxOut{}, outs[:n]...))
		put(tx)
		for i, o := range outs[:n] {
			w.coin(core.Utxo{TxId: model.Tid(tx), Ind: uint64(i), Value: o.Value}, o.PublicKeyHash)
		}
		outs = outs[n:]
		t.Label("several coins of one transaction")
	}
}

func (w *wallet) coin(u core.Utxo, pkh core.HashT) {
	w.coins[u] = pkh
	w.total += u.Value
	w.vals = append(w.vals, u.Value)
}

func (w *wallet) own(pkh core.HashT) bool {
	for _, k := range w.given {
		if k.Pkh == pkh {
			return true
		}
	}
	return false
}

// fee asked for a size, as a float.
func (w *wallet) fee(size uint64) float64 { return w.rate * float64(size) }

// tx checks what every wallet transaction must be; it gives total in, total out and values of the inputs.
func (w *wallet) tx(tx *core.Tx) (in, out uint64, vals []uint64) {
	t := w.t
	t.Check(tx != nil, "nil", "neither a transaction nor an error is returned")
	t.Check(!tx.IsCoinbase, "coinbase", "the wallet made a coinbase")
	t.Check(tx.MinBlock == w.min, "min-block", "the transaction's minimum height is %d, asked %d", tx.MinBlock, w.min)
	seen := map[core.Utxo]bool{}
	for i, x := range tx.Inputs {
		pkh, ok := w.coins[x.Utxo]
		t.Check(ok, "foreign-coin", "input %d spends a coin that was not given", i)
		t.Check(!seen[x.Utxo], "coin-twice", "input %d spends a coin again", i)
		t.Check(w.own(pkh), "foreign-key", "input %d spends a coin of a key that was not given", i)
		seen[x.Utxo] = true
		in += x.Utxo.Value
		vals = append(vals, x.Utxo.Value)
	}
	for _, o := range tx.Outputs {
		t.Check(out+o.Value >= out, "outputs-wrap", "the outputs overflow")
		out += o.Value
	}
	r := w.w.CheckTx(*tx)
	t.Check(r.Ok(), "invalid:"+r.String(), "the wallet's transaction breaks %s: in %d out %d size %d", r, in, out, model.TxVSize(*tx))
	err := w.iv.StoreTx(*tx)
	t.Check(err == nil, "refused", "the node refuses the wallet's transaction: %v", err)
	size := model.TxVSize(*tx)
	t.Check(size <= w.p.MaxTxVSize, "size", "the transaction has size %d", size)
	fee := in - out
	tol := 2 + float64(fee)*1e-9
	t.Check(!(float64(fee) < w.fee(size)-tol), "fee-low", "the fee is %d for size %d at rate %g", fee, size, w.rate)
	est := uint64(txBase + inSize*len(tx.Inputs) + outSize*len(tx.Outputs))
	if w.rate >= 0 {
		t.Check(float64(fee) <= w.fee(est)+tol, "fee-high", "the fee is %d for a size of at most %d at rate %g", fee, est, w.rate)
	} else {
		t.Check(fee <= 3, "fee-high", "the fee is %d at a negative rate", fee)
	}
	return
}

// need gives the least number of largest coins that pay out, its fee and slack in coin,
// at the longest signatures; 0 if there is none.
func (w *wallet) need(out uint64, nOut int, slack float64) int {
	sum := 0.0
	exact := uint64(0)
	for k := 1; k <= len(w.vals); k++ {
		exact += w.vals[k-1]
		sum = float64(exact)
		size := uint64(txBase + inSize*k + outSize*nOut)
		if size > w.p.MaxTxVSize {
			return 0
		}
		if w.rate != w.rate {
			return 0
		}
		f := w.fee(size)
		if f < 1 {
			f = 1
		}
		if exact <= out {
			continue
		}
		if float64(exact-out) >= f+slack+sum*1e-9*slack/3 {
			return k
		}
	}
	return 0
}

// foreign adds a coin of nobody's key at times. It makes the request impossible
// unless it can be left alone.
func (w *wallet) foreign() bool {
	t := w.t
	if !t.Chance(6) || len(w.coins) == 0 {
		return false
	}
	v := 1 + t.Draw(5000)
	if t.Bool() {
		v = 1
	}
	tx := gen.Coinbase(5000, v, gen.K(19).Pkh)
	if w.iv.StoreTx(tx) != nil {
		return false
	}
	w.w.PutTx(tx)
	w.coins[core.Utxo{TxId: model.Tid(tx), Value: v}] = gen.K(19).Pkh
	return true
}

func pay(t *pbt.T) {
	w := newWallet(t)
	dests := map[core.HashT]uint64{}
	total, over := uint64(0), false
	line := ""
	nd := 0
	many := t.Weighted(60, 40, 10, 3)
	t.Steps(0, []int{2, 2, 30, 400}[many], []int{4, 4, 60, 500}[many], func(i int) {
		var pkh core.HashT
		if t.Chance(15) {
			pkh = w.keys[t.Intn(len(w.keys))].Pkh
		} else {
			pkh = model.T(model.Uint64Hash(uint64(1000 + i)))
		}
		if _, ok := dests[pkh]; ok {
			return
		}
		var v uint64
		left := w.total - total
		if over || total > w.total {
			left = 0
		}
		how := 0
		if many < 2 || t.Chance(1) {
			how = t.Weighted(10, 4, 4, 1)
		}
		switch how {
		case 0:
			v = t.Draw(left/[]uint64{2, 2, 20, 300}[many] + 1)
		case 1: // about everything
			d := t.Draw(1000)
			if left > d {
				v = left - d
				if d < 500 {
					v = left - left/4
				}
			}
		case 2:
			v = t.Draw(5)
		default:
			v = t.U64()
		}
		dests[pkh] = v
		if total+v < total {
			over = true
		}
		total += v
		nd++
		if nd <= 8 {
			line += fmt.Sprintf(" %d", v)
		}
	})
	foreign := w.foreign()
	t.Note("pay%s to %d, total %d, overflow %v, foreign coin %v", line, nd, total, over, foreign)
	copyCoins := map[core.Utxo]core.HashT{}
	for k, v := range w.coins {
		copyCoins[k] = v
	}
	tx, err := core.MakeOutboundTx(w.p, w.privs, copyCoins, dests, w.rate, w.min)
	least := 0
	if !over && !foreign {
		least = w.need(total, nd+1, 3)
	}
	if least > 1 {
		t.NonTrivial()
	}
	if err != nil {
		t.Label("error")
		t.Check(least == 0, "refused-possible", "an error (%v) although %d coins pay %d and the fee", err, least, total)
		return
	}
	t.Label("made")
	in, _, vals := w.tx(tx)
	t.Check(!over, "impossible-made", "a transaction is made although the amounts overflow")
	rest := append([]core.TxOut{}, tx.Outputs...)
	paid := uint64(0)
	for pkh, v := range dests {
		found := false
		for i, o := range rest {
			if o.PublicKeyHash == pkh && o.Value == v {
				rest = append(rest[:i], rest[i+1:]...)
				found = true
				break
			}
		}
		t.Check(found, "not-paid", "a destination is not paid %d: outputs %v", v, tx.Outputs)
		paid += v
	}
	for _, o := range rest {
		t.Check(w.own(o.PublicKeyHash), "rest-astray", "%d goes to an address that is neither a destination nor own", o.Value)
	}
	k := len(vals)
	if fewer := w.need(total, nd+1, 3); !foreign && fewer != 0 {
		t.Check(k <= fewer, "too-many-coins", "%d coins are spent, %d of the largest suffice (paying %d of %d)", k, fewer, paid, in)
	}
}

func consolidate(t *pbt.T) {
	w := newWallet(t)
	foreign := w.foreign()
	copyCoins := map[core.Utxo]core.HashT{}
	for k, v := range w.coins {
		copyCoins[k] = v
	}
	tx, err := core.MakeConsolidateTx(w.p, w.privs, copyCoins, w.rate, w.min)
	fit := 0
	sum := uint64(0)
	for fit < len(w.vals) && uint64(txBase+outSize+inSize*(fit+1)) <= w.p.MaxTxVSize {
		sum += w.vals[fit]
		fit++
	}
	t.Note("%d of %d coins fit, worth %d, foreign coin %v", fit, len(w.vals), sum, foreign)
	if fit > 1 {
		t.NonTrivial()
	}
	if err != nil {
		t.Label("error")
		f := w.fee(uint64(txBase + outSize + inSize*fit))
		t.Check(foreign || fit < 2 || !(float64(sum) > f*(1+1e-9)+3), "refused-possible", "an error (%v) although the %d largest coins, worth %d, can be moved for a fee of %g", err, fit, sum, f)
		return
	}
	t.Label("made")
	_, _, vals := w.tx(tx)
	t.Check(len(tx.Outputs) == 1, "outputs", "a consolidation has %d outputs", len(tx.Outputs))
	t.Check(w.own(tx.Outputs[0].PublicKeyHash), "rest-astray", "a consolidation goes to a foreign address")
	if foreign {
		return
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] > vals[j] })
	t.Check(len(vals) == fit, "number", "a consolidation moves %d coins, %d fit", len(vals), fit)
	for i := range vals {
		t.Check(vals[i] == w.vals[i], "not-largest", "a consolidation moves coins %v, the largest are %v", vals, w.vals[:fit])
	}
}

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{
		{Name: "pay", Rule: "Wallets of 0-100 coins (each of its own coinbase, or outputs of shared transactions) of 1-12 keys (values equal, small, spread, zero, near the total), at times 230 keys given, 0-500 destinations (own, foreign, amounts near the balance or overflowing), fee rates from none to " +
			"absurd, tight size limits. The result is judged by the payment rules, the reference rules and the node. Non-trivial: at least two coins are needed.",
			Quick: 20000, Thorough: 300000, Run: pay},
		{Name: "consolidate", Rule: "The same wallets consolidated, at times with a foreign coin among the given. Non-trivial: at least two coins fit.",
			Quick: 5000, Thorough: 80000, Run: consolidate},
	})
}
