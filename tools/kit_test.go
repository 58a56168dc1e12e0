package zdemo

import (
	"crypto/ecdsa"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/chain"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Easy parameters: a quarter of all hashes beat the target.
func easy() core.Params {
	h := core.NewHashTFromStringAssert("3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
	return core.Params{BlockReward: 1000, DifficultyPeriod: 8, BlockTargetTime: 10, MaxBlockVSize: 100000,
		MaxTxVSize: 16384, MaxTarget: h, OriginalTarget: h}
}

var now = uint64(time.Now().Unix())

type key struct {
	priv *ecdsa.PrivateKey
	pub  []byte
	pkh  core.HashT
}

func newKey() key {
	p, err := core.NewEcdsa()
	if err != nil {
		panic(err)
	}
	b, err := core.MarshalEcdsaPublic(p)
	if err != nil {
		panic(err)
	}
	return key{p, b, core.DHashBytes(b)}
}

type coin struct {
	u core.Utxo
	k key
}

func out(tx core.Tx, i int, k key) coin {
	return coin{core.Utxo{TxId: tx.Hash(), Ind: uint64(i), Value: tx.Outputs[i].Value}, k}
}

func pay(v uint64, k key) core.TxOut { return core.TxOut{Value: v, PublicKeyHash: k.pkh} }

func spend(min uint64, ins []coin, outs ...core.TxOut) core.Tx {
	tx := core.Tx{MinBlock: min, Inputs: []core.TxIn{}, Outputs: outs}
	if outs == nil {
		tx.Outputs = []core.TxOut{}
	}
	for _, c := range ins {
		sig, err := core.EcdsaSign(c.k.priv, core.TxHashPreSig(min, tx.Outputs))
		if err != nil {
			panic(err)
		}
		tx.Inputs = append(tx.Inputs, core.TxIn{Utxo: c.u, PublicKey: c.k.pub, Signature: sig})
	}
	return tx
}

// A block with everything it needs.
type made struct {
	block   core.Block
	merkles []core.MerkleNode
	txs     []core.Tx
	height  uint64
}

func (m made) id() core.HashT { return m.block.Hash() }

// Make a block on parent; genesis is made{}.
func block(p core.Params, parent made, k key, t uint64, target core.HashT, txs ...core.Tx) made {
	fees := uint64(0)
	for _, tx := range txs {
		fees += tx.InputsValue() - tx.OutputsValue()
	}
	h := parent.height + 1
	cb := core.Tx{IsCoinbase: true, MinBlock: h, Inputs: []core.TxIn{}, Outputs: []core.TxOut{pay(p.BlockReward+fees, k)}}
	all := append([]core.Tx{cb}, txs...)
	ids := make([]core.HashT, len(all))
	for i := range all {
		ids[i] = all[i].Hash()
	}
	nodes, order := core.MerkleFromTxIds(ids)
	m := made{txs: all, height: h}
	for _, id := range order {
		m.merkles = append(m.merkles, nodes[id])
	}
	prev := core.HashT{}
	if parent.height > 0 {
		prev = parent.id()
	}
	m.block = core.Block{PrevBlockId: prev, MerkleRoot: order[len(order)-1], Target: target,
		Noise: core.NewHashTRand(), MinedTime: t}
	for !m.block.Hash().Lt(target) {
		m.block.Nonce++
	}
	return m
}

func store(iv *inv.Inv, m made) error {
	for _, tx := range m.txs {
		if !iv.HasTx(tx.Hash()) {
			if err := iv.StoreTx(tx); err != nil {
				return err
			}
		}
	}
	for _, n := range m.merkles {
		if !iv.HasMerkle(n.Hash()) {
			if err := iv.StoreMerkle(n); err != nil {
				return err
			}
		}
	}
	return iv.StoreBlock(m.block)
}

// A running chain.
type node struct {
	t   *testing.T
	p   core.Params
	bus *bus.Bus
	inv *inv.Inv
}

func start(t *testing.T, p core.Params, miners bool, invDir, chainDir *string) *node {
	n := &node{t: t, p: p, bus: bus.NewBus(), inv: inv.NewInv(p, invDir)}
	c := chain.NewChain(n.bus, n.inv, miners, chainDir)
	go c.Loop()
	return n
}

func (n *node) offer(ms ...made) {
	e := bus.CandidateHeadEvent{Head: ms[len(ms)-1].id()}
	for _, m := range ms {
		e.Txs = append(e.Txs, m.txs...)
		e.Merkles = append(e.Merkles, m.merkles...)
		e.Blocks = append(e.Blocks, m.block)
	}
	n.bus.CandidateHead.Pub(e)
	time.Sleep(120 * time.Millisecond)
	n.height() // answered after the offer has been handled
}

func (n *node) offerTx(tx core.Tx) error {
	ret := make(chan error, 1)
	n.bus.CandidateTx.Pub(bus.CandidateTxEvent{Ret: ret, Tx: tx})
	return ask(n, ret)
}

func ask[V any](n *node, ret chan V) V {
	select {
	case v := <-ret:
		return v
	case <-time.After(5 * time.Second):
		n.t.Fatal("the node does not answer")
		panic(0)
	}
}

func (n *node) height() uint64 {
	ret := make(chan uint64, 1)
	n.bus.HeadHeight.Pub(bus.HeadHeightQuery{Ret: ret})
	return ask(n, ret)
}

func (n *node) balance(k key) uint64 {
	ret := make(chan map[core.HashT]uint64, 1)
	n.bus.PkhBalance.Pub(bus.PkhBalanceQuery{Ret: ret, PublicKeyHashes: []core.HashT{k.pkh}})
	return ask(n, ret)[k.pkh]
}

func (n *node) utxos(k key, excl bool) map[core.Utxo]core.HashT {
	ret := make(chan map[core.Utxo]core.HashT, 1)
	n.bus.PkhUtxos.Pub(bus.PkhUtxosQuery{Ret: ret, PublicKeyHashes: []core.HashT{k.pkh}, ExcludeMempool: excl})
	return ask(n, ret)
}

func (n *node) confirms(ids ...core.HashT) map[core.HashT]uint64 {
	ret := make(chan map[core.HashT]uint64, 1)
	n.bus.TxConfirms.Pub(bus.TxConfirmsQuery{Ret: ret, TxIds: ids})
	return ask(n, ret)
}

var _ = []any{start, store, (*node).offer, (*node).offerTx, (*node).balance, (*node).utxos, (*node).confirms, spend, block, out, now}
