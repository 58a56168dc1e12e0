//go:build go1.25

package gen

import (
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Copy of a ledger that can be advanced transaction by transaction.
func CopyLedger(l *model.Ledger) *model.Ledger {
	c := &model.Ledger{Utxos: map[core.Utxo]core.HashT{}, Included: map[core.HashT]*model.Block{}}
	for k, v := range l.Utxos {
		c.Utxos[k] = v
	}
	for k, v := range l.Included {
		c.Included[k] = v
	}
	return c
}

// Put advances the ledger by a transaction that is not stored anywhere yet.
func Put(l *model.Ledger, tx core.Tx) {
	id := model.Tid(tx)
	for _, in := range tx.Inputs {
		delete(l.Utxos, in.Utxo)
	}
	for i, o := range tx.Outputs {
		l.Utxos[core.Utxo{TxId: id, Ind: uint64(i), Value: o.Value}] = o.PublicKeyHash
	}
}

// Fits says whether the transactions and a coinbase respect the size limits.
func Fits(p core.Params, txs []core.Tx) bool {
	s := uint64(model.CoinbaseSize)
	for _, t := range txs {
		v := model.TxVSize(t)
		if v > p.MaxTxVSize {
			return false
		}
		s += v
	}
	return s <= p.MaxBlockVSize
}

// Fill draws transactions that are valid, in order, on top of ledger l for a
// block of the given height; some spend outputs made earlier in the block.
func Fill(t *pbt.T, w *model.World, l *model.Ledger, height uint64, avg, max int, extra []core.Tx) []core.Tx {
	l = CopyLedger(l)
	var txs []core.Tx
	for _, x := range extra { // pending transactions worth including
		id := model.Tid(x)
		if _, ok := l.Included[id]; ok || x.MinBlock > height || x.IsCoinbase {
			continue
		}
		ok := true
		for _, in := range x.Inputs {
			if _, has := l.Utxos[in.Utxo]; !has {
				ok = false
			}
		}
		if ok && t.Bool() && Fits(w.P, append(append([]core.Tx{}, txs...), x)) {
			txs = append(txs, x)
			Put(l, x)
			l.Included[id] = nil
		}
	}
	t.Steps(0, avg, max, func(int) {
		coins := Coins(l)
		if len(coins) == 0 {
			return
		}
		if n := len(txs); n > 0 && t.Draw(3) == 2 { // prefer this block's own outputs
			last := model.Tid(txs[t.Intn(n)])
			var own []Coin
			for _, c := range coins {
				if c.U.TxId == last {
					own = append(own, c)
				}
			}
			if len(own) > 0 {
				coins = own
			}
		}
		tx, _ := SpendTx(t, coins, height)
		if len(tx.Inputs) == 0 || !w.CheckTxWith(tx, txs).Ok() {
			return
		}
		id := model.Tid(tx)
		if _, ok := l.Included[id]; ok {
			return
		}
		if !Fits(w.P, append(append([]core.Tx{}, txs...), tx)) {
			return
		}
		txs = append(txs, tx)
		Put(l, tx)
		l.Included[id] = nil
	})
	return txs
}
