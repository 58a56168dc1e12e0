//go:build go1.25

package model

import (
	"sort"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Node is the model of a node: a world, a head and (implied) pending transactions.
type Node struct {
	W        *World
	Head     *Block
	Adopted  []core.HashT // announced heads
	Accepted []core.HashT // announced transactions
}

func NewNode(p core.Params, now func() uint64) *Node {
	w := NewWorld(p, now)
	return &Node{W: w, Head: w.Root}
}

// OfferTx applies a candidate transaction; "" if it is accepted or known.
func (n *Node) OfferTx(t core.Tx) Reasons {
	id := Tid(t)
	if _, ok := n.W.Txs[id]; ok {
		return Reasons{}
	}
	r := n.W.CheckTx(t)
	if r.Ok() {
		n.W.PutTx(t)
		n.Accepted = append(n.Accepted, id)
	}
	return r
}

// OfferHead applies a candidate head. The result says what became of it.
func (n *Node) OfferHead(e bus.CandidateHeadEvent) string {
	for _, t := range e.Txs {
		if _, ok := n.W.Txs[Tid(t)]; ok {
			continue
		}
		if r := n.W.CheckTx(t); !r.Ok() {
			return "bad-tx:" + r.R[0]
		}
		n.W.PutTx(t)
	}
	for _, m := range e.Merkles {
		if _, ok := n.W.Merkles[Mid(m)]; ok {
			continue
		}
		if r := n.W.CheckMerkle(m); !r.Ok() {
			return "bad-merkle:" + r.R[0]
		}
		n.W.PutMerkle(m)
	}
	for _, b := range e.Blocks {
		if _, ok := n.W.Blocks[Bid(b)]; ok {
			continue
		}
		if r := n.W.CheckBlock(b); !r.Ok() {
			return "bad-block:" + r.R[0]
		}
		n.W.PutBlock(b)
	}
	h, ok := n.W.Blocks[e.Head]
	if !ok {
		return "unknown-head"
	}
	if h.Work.Cmp(n.Head.Work) <= 0 {
		return "not-heavier"
	}
	if l := n.W.LedgerAt(h); l.Bad != "" {
		return "bad-chain:" + l.Bad
	}
	out := "advance"
	if LCA(n.Head, h) != n.Head {
		out = "reorg"
	}
	n.Head = h
	n.Adopted = append(n.Adopted, h.Id)
	return out
}

// Ledger of the head.
func (n *Node) Ledger() *Ledger { return n.W.LedgerAt(n.Head) }

// Pending transactions: stored and not on the chain, in order of arrival.
func (n *Node) Pending() []core.HashT {
	l := n.Ledger()
	var out []core.HashT
	for _, id := range n.W.TxOrder {
		if _, ok := l.Included[id]; !ok {
			out = append(out, id)
		}
	}
	return out
}

// PendingSpends is the set of outputs some pending transaction spends.
func (n *Node) PendingSpends() map[core.Utxo]bool {
	out := map[core.Utxo]bool{}
	for _, id := range n.Pending() {
		for _, in := range n.W.Txs[id].Inputs {
			out[in.Utxo] = true
		}
	}
	return out
}

// Utxos of some owners.
func (n *Node) Utxos(pkhs []core.HashT, exclude bool) map[core.Utxo]core.HashT {
	want := map[core.HashT]bool{}
	for _, p := range pkhs {
		want[p] = true
	}
	var sp map[core.Utxo]bool
	if exclude {
		sp = n.PendingSpends()
	}
	out := map[core.Utxo]core.HashT{}
	for u, o := range n.Ledger().Utxos {
		if want[o] && !sp[u] {
			out[u] = o
		}
	}
	return out
}

// Confirms of a transaction, false if unknown.
func (n *Node) Confirms(id core.HashT) (uint64, bool) {
	if _, ok := n.W.Txs[id]; !ok {
		return 0, false
	}
	b, ok := n.Ledger().Included[id]
	if !ok {
		return 0, true
	}
	return n.Head.Height - b.Height + 1, true
}

// Includable says whether a pending tx could be put in the next block on its own.
func (n *Node) Includable(id core.HashT) bool {
	t := n.W.Txs[id]
	l := n.Ledger()
	if t.MinBlock > n.Head.Height+1 || t.IsCoinbase {
		return false
	}
	for _, in := range t.Inputs {
		if _, ok := l.Utxos[in.Utxo]; !ok {
			return false
		}
	}
	_, inc := l.Included[id]
	return !inc
}

// SortHashes sorts ids.
func SortHashes(ls []core.HashT) []core.HashT {
	sort.Slice(ls, func(i, j int) bool { return Less(ls[i], ls[j]) })
	return ls
}
