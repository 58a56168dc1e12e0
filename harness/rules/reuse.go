//go:build go1.25

package rules

import (
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

// ArmReuse presents a signature made to spend one coin with another coin of the same owner.
var ArmReuse = pbt.Arm{Name: "signature-reuse", Rule: "An owner with two coins signs a transaction spending the first; somebody else replaces the input by the second coin, " +
	"keeping the signature. The node must refuse it. Non-trivial: always.",
	Quick: 100, Thorough: 1000, Run: func(t *pbt.T) {
		p := core.DevNetParams()
		p.BlockReward = 10
		iv := inv.NewInv(p, nil)
		k := gen.K(t.Intn(gen.NKeys))
		a := gen.Coinbase(1, 1000+t.Draw(1000), k.Pkh)
		b := gen.Coinbase(2, 3000+t.Draw(1000), k.Pkh)
		for _, x := range []core.Tx{a, b} {
			if err := iv.StoreTx(x); err != nil {
				t.Fail("store", "a coinbase is refused: %v", err)
			}
		}
		v := a.Outputs[0].Value
		tx := gen.MakeTx(t.Draw(3), []gen.Coin{{U: core.Utxo{TxId: model.Tid(a), Ind: 0, Value: v}, K: k}},
			[]core.TxOut{{Value: 1 + t.Draw(v-1), PublicKeyHash: gen.K(t.Intn(gen.NKeys)).Pkh}})
		t.NonTrivial()
		forged := tx
		forged.Inputs = append([]core.TxIn{}, tx.Inputs...)
		forged.Inputs[0].Utxo = core.Utxo{TxId: model.Tid(b), Ind: 0, Value: b.Outputs[0].Value}
		t.Note("signed: %s; forged: %s", TxLine(tx), TxLine(forged))
		t.Check(iv.StoreTx(tx) == nil, "signed-refused", "the signed transaction is refused")
		t.Check(iv.StoreTx(forged) != nil, "signature-not-bound-to-inputs", "a signature made to spend one coin is accepted for another coin of the same owner")
	}}
