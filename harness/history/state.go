//go:build go1.25

package history

import (
	"github.com/levilutz/basiccoin/internal/chain"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif/drive"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
	"github.com/levilutz/basiccoin/pkg/core"
)

// twin is a ledger state of the node beside what it should hold.
type twin struct {
	s    *chain.State
	head *model.Block
	pool map[core.HashT]bool
}

func (a *twin) copy() *twin {
	p := map[core.HashT]bool{}
	for k := range a.pool {
		p[k] = true
	}
	return &twin{a.s.Copy(), a.head, p}
}

// ArmState walks ledger states directly.
var ArmState = pbt.Arm{Name: "state-walk", Rule: "A random tree of blocks (some breaking the ledger) is stored in a real inventory; " +
	"ledger states advance, fail to advance on a copy, rewind, rewind far, are copied and gain pending transactions; after every step every " +
	"living copy is compared with a replay. Non-trivial: at least one rewind of a block with dependent or repeated transactions, or a failed advance.",
	Quick: 1500, Thorough: 40000, Bubble: true, Run: runState}

func runState(t *pbt.T) {
	p := gen.Params(t)
	i := inv.NewInv(p, nil)
	h := New(t, p, &drive.Node{T: t, Inv: i}, Focus{AvgTx: 3})
	// the tree
	n := 3 + t.Intn(14)
	for k := 0; k < n; k++ {
		parent := h.blocks[len(h.blocks)-1]
		if t.Draw(3) == 2 {
			parent = h.randomBlock()
		}
		if t.Draw(5) == 4 {
			h.Bad(parent)
		} else {
			h.Extend(parent, 3)
		}
	}
	for _, id := range h.S.TxOrder {
		if err := i.StoreTx(h.S.Txs[id]); err != nil {
			t.Fail("tx-refused", "the node refuses %s: %v", rules.TxLine(h.S.Txs[id]), err)
		}
	}
	for _, b := range h.blocks[1:] {
		for _, m := range h.specs[b.Id].Merkles {
			if !i.HasMerkle(model.Mid(m)) {
				if err := i.StoreMerkle(m); err != nil {
					t.Discard()
				}
			}
		}
		if err := i.StoreBlock(b.B); err != nil {
			t.Discard()
		}
	}
	if len(h.S.TxOrder) == 0 {
		t.Discard()
	}
	st := []*twin{{chain.NewState(i), h.S.Root, map[core.HashT]bool{}}}
	add := func(a *twin, id core.HashT) {
		if !a.pool[id] {
			if _, ok := h.S.LedgerAt(a.head).Included[id]; !ok {
				a.s.AddMempoolTx(id)
				a.pool[id] = true
			}
		}
	}
	t.Steps(4, 12, 40, func(int) {
		a := st[t.Intn(len(st))]
		switch t.Weighted(6, 3, 2, 2, 2) {
		case 0, 1: // advance, mostly along a valid branch
			var next []*model.Block
			for _, b := range h.blocks[1:] {
				if b.Parent == a.head {
					next = append(next, b)
				}
			}
			if len(next) == 0 {
				return
			}
			b := next[t.Intn(len(next))]
			auto := t.Draw(4) == 3
			if !auto {
				for _, id := range b.TxIds {
					add(a, id)
				}
			}
			bad := h.S.LedgerAt(b).Bad
			c := a
			if bad != "" {
				c = a.copy()
			}
			err := c.s.Advance(b.Id, auto)
			t.Note("advance to %s (height %d): %v", short(b.Id), b.Height, err)
			t.Check((err == nil) == (bad == ""), "advance", "advancing to block %s at height %d gives %v; the chain is %q", short(b.Id), b.Height, err, bad)
			if bad == "" {
				a.head = b
				for _, id := range b.TxIds {
					delete(a.pool, id)
				}
			} else {
				t.NonTrivial()
			}
		case 2: // rewind
			if a.head == h.S.Root {
				return
			}
			k := 1 + t.Intn(int(min(a.head.Height, 4)))
			to := a.head
			for ; k > 0; k-- {
				if len(to.TxIds) > 2 {
					t.NonTrivial()
				}
				for _, id := range to.TxIds {
					a.pool[id] = true
				}
				to = to.Parent
			}
			t.Note("rewind to %s (height %d)", short(to.Id), to.Height)
			if t.Bool() {
				for a.head != to {
					a.s.Rewind()
					a.head = a.head.Parent
				}
			} else {
				a.s.RewindUntil(to.Id)
				a.head = to
			}
		case 3: // copy
			if len(st) < 4 {
				st = append(st, a.copy())
				t.Note("copy")
			}
		case 4:
			add(a, h.S.TxOrder[t.Intn(len(h.S.TxOrder))])
		}
		for _, x := range st {
			h.compareState(x)
		}
	})
}

func (h *H) compareState(a *twin) {
	t := h.T
	l := h.S.LedgerAt(a.head)
	pkhs := Pkhs()
	want, free := map[core.Utxo]core.HashT{}, map[core.Utxo]core.HashT{}
	spent := map[core.Utxo]bool{}
	for id := range a.pool {
		for _, in := range h.S.Txs[id].Inputs {
			spent[in.Utxo] = true
		}
	}
	for u, o := range l.Utxos {
		want[u] = o
		if !spent[u] {
			free[u] = o
		}
	}
	if s := Diff(a.s.GetManyPkhUtxos(pkhs, false), want, utxoStr); s != "" {
		t.Fail("utxos", "unspent outputs: %s", s)
	}
	if s := Diff(a.s.GetManyPkhUtxos(pkhs, true), free, utxoStr); s != "" {
		t.Fail("pending", "unspent outputs not spent by pending transactions: %s", s)
	}
	all := l.Balances()
	if s := Diff(a.s.GetRichList(1<<20), all, short); s != "" {
		t.Fail("balances", "balances: %s", s)
	}
	conf, inc := map[core.HashT]uint64{}, map[core.HashT]core.HashT{}
	for _, id := range h.S.TxOrder {
		conf[id] = 0
		if b, ok := l.Included[id]; ok {
			conf[id] = a.head.Height - b.Height + 1
			inc[id] = b.Id
		}
	}
	if s := Diff(a.s.GetTxConfirms(h.S.TxOrder), conf, short); s != "" {
		t.Fail("confirms", "confirmations: %s", s)
	}
	if s := Diff(a.s.GetTxIncludedBlock(h.S.TxOrder), inc, short); s != "" {
		t.Fail("inclusion", "inclusion blocks: %s", s)
	}
	// what could be mined next
	got := map[core.HashT]bool{}
	for _, id := range a.s.GetSortedIncludableMempool() {
		got[id] = true
	}
	wantPool := map[core.HashT]bool{}
	for id := range a.pool {
		tx := h.S.Txs[id]
		ok := tx.MinBlock <= a.head.Height+1 && !tx.IsCoinbase
		for _, in := range tx.Inputs {
			if _, has := l.Utxos[in.Utxo]; !has {
				ok = false
			}
		}
		if ok {
			wantPool[id] = true
		}
	}
	if s := Diff(got, wantPool, short); s != "" {
		t.Fail("includable", "pending transactions that can be included: %s", s)
	}
}
