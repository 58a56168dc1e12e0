//go:build go1.25

package c14

import (
	"testing"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

func size(t *pbt.T, big int) int {
	switch t.Weighted(5, 4, 3, 1) {
	case 0:
		return t.Range(1, 12)
	case 1: // around a power of two
		n := 1<<t.Range(1, 7) + t.Intn(3) - 1
		return n
	case 2: // multiples of a power of two plus a little
		return (1+t.Intn(12))<<t.Intn(5) + t.Intn(2)
	default:
		return t.Range(1, big)
	}
}

func params() core.Params {
	p := core.ProdNetParams()
	p.BlockReward = 1
	return p
}

// txs stores n distinct cheap transactions, of one or several sizes.
func stored(t *pbt.T, iv *inv.Inv, n int, base uint64) ([]core.HashT, map[core.HashT]uint64) {
	ids := make([]core.HashT, n)
	sizes := map[core.HashT]uint64{}
	for i := range ids {
		tx := gen.Coinbase(base+uint64(i), 1+t.Draw(3), gen.K(0).Pkh)
		ids[i] = model.Tid(tx)
		sizes[ids[i]] = model.TxVSize(tx)
		if err := iv.StoreTx(tx); err != nil {
			t.Fail("store-tx", "a coinbase is refused: %v", err)
		}
	}
	return ids, sizes
}

func checkTree(t *pbt.T, ids []core.HashT, m map[core.HashT]core.MerkleNode, order []core.HashT) core.HashT {
	t.Check(len(order) > 0, "no-nodes", "the tree over %d ids has no nodes", len(ids))
	known := map[core.HashT]bool{}
	for _, id := range ids {
		known[id] = true
	}
	for i, id := range order {
		n, ok := m[id]
		t.Check(ok, "node-missing", "node %d of %d in the order is not in the map", i, len(order))
		t.Check(model.Mid(n) == id, "node-id", "node %d is listed under an id that is not its hash", i)
		t.Check(known[n.LChild] && known[n.RChild], "child-after-parent", "node %d of %d over %d ids comes before one of its children", i, len(order), len(ids))
		known[id] = true
	}
	return order[len(order)-1]
}

func storeTree(t *pbt.T, iv *inv.Inv, m map[core.HashT]core.MerkleNode, order []core.HashT) {
	for i, id := range order {
		if iv.HasMerkle(id) { // shared with another list's tree
			continue
		}
		if err := iv.StoreMerkle(m[id]); err != nil {
			t.Fail("store-node", "node %d of %d of a constructed tree is refused: %v", i, len(order), err)
		}
	}
}

func back(t *pbt.T, iv *inv.Inv, root core.HashT, ids []core.HashT, sizes map[core.HashT]uint64) {
	got := iv.GetMerkleTxIds(root)
	t.Check(len(got) == len(ids), "list-length", "the root over %d ids gives back %d", len(ids), len(got))
	sum := uint64(0)
	for i := range ids {
		t.Check(got[i] == ids[i], "list-order", "the root over %d ids gives back another id at place %d", len(ids), i)
		sum += sizes[ids[i]]
	}
	t.Check(iv.GetMerkleVSize(root) == sum, "size", "the root over %d ids has size %d, their sum is %d", len(ids), iv.GetMerkleVSize(root), sum)
	t.Check(iv.GetEntityVSize(root) == sum, "size", "the root over %d ids has entity size %d, their sum is %d", len(ids), iv.GetEntityVSize(root), sum)
	txs := iv.GetMerkleTxs(root)
	t.Check(len(txs) == len(ids), "txs-length", "the root over %d ids gives back %d transactions", len(ids), len(txs))
	for i := range txs {
		t.Check(model.Tid(txs[i]) == ids[i], "txs-order", "the root over %d ids gives back another transaction at place %d", len(ids), i)
	}
}

// mutate gives a different list of distinct ids.
func mutate(t *pbt.T, ids, spare []core.HashT) ([]core.HashT, string) {
	l := append([]core.HashT{}, ids...)
	n := len(l)
	switch t.Weighted(3, 3, 3, 3, 2, 2, 1) {
	case 0: // drop the last
		if n > 1 {
			return l[:n-1], "without the last"
		}
	case 1: // add at the end
		return append(l, spare[0]), "with one more"
	case 2: // replace
		i := t.Intn(n)
		l[i] = spare[0]
		return l, "one replaced"
	case 3: // swap
		if n > 1 {
			i := t.Intn(n - 1)
			j := i + 1 + t.Intn(n-1-i)
			l[i], l[j] = l[j], l[i]
			return l, "two swapped"
		}
	case 4: // drop any
		if n > 1 {
			i := t.Intn(n)
			return append(l[:i], l[i+1:]...), "one dropped"
		}
	case 5: // insert anywhere
		i := t.Intn(n + 1)
		l = append(l, core.HashT{})
		copy(l[i+1:], l[i:])
		l[i] = spare[0]
		return l, "one inserted"
	case 6: // double the list with fresh ids, or halve it
		if n > 2 {
			return l[:(n+1)/2], "first half"
		}
	}
	return append(l, spare[0]), "with one more"
}

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{
		{Name: "round-trip", Rule: "Lists of 1 to 1500 stored transactions (sizes around powers of two and multiples), one or two lists over the same inventory, " +
			"in memory or on disk with reopening. Order, ids, stored list, sizes and roots are checked. Non-trivial: 3 or more ids.",
			Quick: 700, Thorough: 20000, Run: func(t *pbt.T) {
				n := size(t, 1500)
				var dir *string
				if t.Chance(15) && n <= 70 {
					d := t.TempDir()
					dir = &d
				}
				p := params()
				iv := inv.NewInv(p, dir)
				ids, sizes := stored(t, iv, n+2, 1+t.Draw(1000))
				ids, spare := ids[:n], ids[n:]
				t.Note("%d ids, on disk: %v", n, dir != nil)
				if n >= 3 {
					t.NonTrivial()
				}
				arg := append([]core.HashT{}, ids...)
				m, order := core.MerkleFromTxIds(arg)
				for i := range arg {
					t.Check(arg[i] == ids[i], "argument-changed", "building a tree changed the list given")
				}
				root := checkTree(t, ids, m, order)
				storeTree(t, iv, m, order)
				back(t, iv, root, ids, sizes)
				other, what := mutate(t, ids, spare)
				t.Note("other list: %s", what)
				m2, order2 := core.MerkleFromTxIds(other)
				root2 := checkTree(t, other, m2, order2)
				t.Check(root != root2, "same-root", "two different lists (%d ids; %s) have the same root", n, what)
				storeTree(t, iv, m2, order2)
				back(t, iv, root2, other, sizes)
				back(t, iv, root, ids, sizes)
				if dir != nil {
					iv = inv.NewInv(p, dir)
					back(t, iv, root, ids, sizes)
					back(t, iv, root2, other, sizes)
				}
			}},
		{Name: "roots", Rule: "Lists of 1 to 4000 random ids and a different list; both trees well-formed, roots different, the same list again gives the same root. Non-trivial: 3 or more ids.",
			Quick: 3000, Thorough: 60000, Run: func(t *pbt.T) {
				n := size(t, 4000)
				s := t.Draw(1 << 30)
				mk := func(i int) core.HashT {
					return model.T(model.CombHash(model.Uint64Hash(s), model.Uint64Hash(uint64(i))))
				}
				ids := make([]core.HashT, n)
				for i := range ids {
					ids[i] = mk(i)
				}
				t.Note("%d ids of seed %d", n, s)
				if n >= 3 {
					t.NonTrivial()
				}
				m, order := core.MerkleFromTxIds(ids)
				root := checkTree(t, ids, m, order)
				_, again := core.MerkleFromTxIds(append([]core.HashT{}, ids...))
				t.Check(again[len(again)-1] == root, "unstable-root", "the same list of %d ids gives two roots", n)
				other, what := mutate(t, ids, []core.HashT{mk(n)})
				m2, order2 := core.MerkleFromTxIds(other)
				root2 := checkTree(t, other, m2, order2)
				t.Check(root != root2, "same-root", "two different lists (%d ids; %s) have the same root", n, what)
			}},
	})
}
