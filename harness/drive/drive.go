//go:build go1.25

// Package drive runs a real chain component over a real bus and inventory
// inside a synctest bubble and talks to it through the bus only.
package drive

import (
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/chain"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

// Node is a running chain.
type Node struct {
	T       *pbt.T
	Bus     *bus.Bus
	Inv     *inv.Inv
	heads   topic.Sub[bus.ValidatedHeadEvent]
	txs     topic.Sub[bus.ValidatedTxEvent]
	targets topic.Sub[bus.MinerTargetEvent]
	// Quiet is a transaction whose announcement is optional.
	Quiet core.HashT
}

// New starts a chain; the inventory lives in invDir and the head in chainDir if given.
func New(t *pbt.T, p core.Params, miners bool, invDir, chainDir *string) *Node {
	n := &Node{T: t, Bus: bus.NewBus(), Inv: inv.NewInv(p, invDir)}
	n.heads = n.Bus.ValidatedHead.Sub()
	n.txs = n.Bus.ValidatedTx.Sub()
	n.targets = n.Bus.MinerTarget.Sub()
	c := chain.NewChain(n.Bus, n.Inv, miners, chainDir)
	go c.Loop()
	n.Settle()
	return n
}

// Real is set when running outside a bubble.
var Real atomic.Bool

// Settle lets virtual time pass until everything offered has been handled.
func (n *Node) Settle() {
	if Real.Load() {
		time.Sleep(250 * time.Millisecond)
		return
	}
	time.Sleep(80 * time.Millisecond)
	synctest.Wait()
}

// OfferHead publishes a candidate head.
func (n *Node) OfferHead(e bus.CandidateHeadEvent) {
	n.Bus.CandidateHead.Pub(e)
	n.Settle()
}

// OfferTx publishes a candidate transaction and returns the verdict.
func (n *Node) OfferTx(tx core.Tx) error {
	ret := make(chan error, 1)
	n.Bus.CandidateTx.Pub(bus.CandidateTxEvent{Ret: ret, Tx: tx})
	e, _ := wait(n, ret, "candidate-tx")
	n.Settle()
	return e
}

// wait for an answer for at most 10 virtual seconds.
func wait[V any](n *Node, ch chan V, what string) (V, bool) {
	select {
	case v := <-ch:
		return v, true
	case <-time.After(10 * time.Second):
		n.T.Fail("no-answer:"+what, "the node does not answer a %s within 10 s: its loop is stuck", what)
		panic("unreachable")
	}
}

func drain[V any](s topic.Sub[V]) []V {
	var out []V
	for {
		v, ok := s.Pop()
		if !ok {
			return out
		}
		out = append(out, v)
	}
}

// Heads announced since the last call.
func (n *Node) Heads() []core.HashT {
	var out []core.HashT
	for _, e := range drain(n.heads) {
		out = append(out, e.Head)
	}
	return out
}

// Txs announced since the last call.
func (n *Node) Txs() []core.HashT {
	var out []core.HashT
	for _, e := range drain(n.txs) {
		out = append(out, e.TxId)
	}
	return out
}

// Targets published since the last call.
func (n *Node) Targets() []bus.MinerTargetEvent { return drain(n.targets) }

func (n *Node) Height() uint64 {
	ret := make(chan uint64, 1)
	n.Bus.HeadHeight.Pub(bus.HeadHeightQuery{Ret: ret})
	v, _ := wait(n, ret, "height query")
	return v
}

func (n *Node) Balances(pkhs []core.HashT) map[core.HashT]uint64 {
	ret := make(chan map[core.HashT]uint64, 1)
	n.Bus.PkhBalance.Pub(bus.PkhBalanceQuery{Ret: ret, PublicKeyHashes: pkhs})
	v, _ := wait(n, ret, "balance query")
	return v
}

func (n *Node) Utxos(pkhs []core.HashT, excl bool) map[core.Utxo]core.HashT {
	ret := make(chan map[core.Utxo]core.HashT, 1)
	n.Bus.PkhUtxos.Pub(bus.PkhUtxosQuery{Ret: ret, PublicKeyHashes: pkhs, ExcludeMempool: excl})
	v, _ := wait(n, ret, "output query")
	return v
}

func (n *Node) RichList(max uint64) map[core.HashT]uint64 {
	ret := make(chan map[core.HashT]uint64, 1)
	n.Bus.RichList.Pub(bus.RichListQuery{Ret: ret, MaxLen: max})
	v, _ := wait(n, ret, "rich list query")
	return v
}

func (n *Node) Confirms(ids []core.HashT) map[core.HashT]uint64 {
	ret := make(chan map[core.HashT]uint64, 1)
	n.Bus.TxConfirms.Pub(bus.TxConfirmsQuery{Ret: ret, TxIds: ids})
	v, _ := wait(n, ret, "confirmations query")
	return v
}

func (n *Node) Included(ids []core.HashT) map[core.HashT]core.HashT {
	ret := make(chan map[core.HashT]core.HashT, 1)
	n.Bus.TxIncludedBlock.Pub(bus.TxIncludedBlockQuery{Ret: ret, TxIds: ids})
	v, _ := wait(n, ret, "inclusion query")
	return v
}
