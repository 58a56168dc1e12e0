//go:build go1.25

// Package targets checks target, work and ancestry arithmetic.
package targets

import (
	"fmt"
	"math/big"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
	"github.com/levilutz/basiccoin/pkg/core"
)

var top = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
var cap254 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 254), big.NewInt(1))

// Big256 draws a 256-bit number: anything, around powers of two, small or near the top.
func Big256(t *pbt.T) *big.Int {
	switch t.Weighted(3, 4, 2, 2) {
	case 0:
		h := t.Hash32()
		return new(big.Int).SetBytes(h[:])
	case 1:
		v := new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(256)))
		v.Add(v, big.NewInt(int64(t.Intn(5))-2))
		if v.Sign() < 0 {
			v.SetInt64(0)
		}
		return v
	case 2:
		return new(big.Int).SetUint64(t.U64())
	default:
		return new(big.Int).Sub(top, new(big.Int).SetUint64(t.Draw(9)))
	}
}

func clamp(v, lo, hi *big.Int) *big.Int {
	if v.Cmp(lo) < 0 {
		return lo
	}
	if v.Cmp(hi) > 0 {
		return hi
	}
	return v
}

// ArmArith compares the comparisons and bounds with big integers.
var ArmArith = pbt.Arm{Name: "target-arithmetic", Rule: "Pairs of 256-bit values (random, around powers of two, differing in one byte) and parameters; " +
	"order, bounds of the next target, conversion and work are compared with big integers. Non-trivial: the values differ.",
	Quick: 20000, Thorough: 1000000, Run: func(t *pbt.T) {
		a := Big256(t)
		b := Big256(t)
		if t.Bool() { // differ in one byte only
			b = new(big.Int).Xor(a, new(big.Int).Lsh(big.NewInt(int64(t.Draw(256))), uint(8*t.Intn(32))))
		}
		x, y := model.FromBig(a), model.FromBig(b)
		t.Note("%s %s", x, y)
		if a.Cmp(b) != 0 {
			t.NonTrivial()
		}
		t.Check(x.Lt(y) == (a.Cmp(b) < 0), "less-than", "%s < %s is said to be %v", x, y, x.Lt(y))
		t.Check(x.Eq(y) == (a.Cmp(b) == 0), "equal", "%s = %s is said to be %v", x, y, x.Eq(y))
		t.Check(x.EqZero() == (a.Sign() == 0), "zero", "%s is zero: %v", x, x.EqZero())
		t.Check(x.BigInt().Cmp(a) == 0, "bigint", "%s as a number is %s", x, x.BigInt())
		t.Check(core.NewHashTFromBigInt(a) == x, "from-bigint", "the number %x as a hash is %s", a, core.NewHashTFromBigInt(a))
		t.Check(x.MinNextTarget() == model.FromBig(new(big.Int).Rsh(a, 2)), "min-next", "the least target after %s is said to be %s", x, x.MinNextTarget())
		max := b
		if max.Cmp(cap254) > 0 {
			max = cap254
		}
		p := core.Params{MaxTarget: model.FromBig(max)}
		want := new(big.Int).Lsh(a, 2)
		if want.Cmp(max) > 0 {
			want = max
		}
		got := x.MaxNextTarget(p)
		t.Check(got == model.FromBig(want), "max-next", "the greatest target after %s with maximum %s is said to be %s", x, p.MaxTarget, got)
		if a.Sign() > 0 {
			w := new(big.Int).Div(top, a)
			t.Check(x.TargetToWork().Cmp(w) == 0, "work", "the work for target %s is said to be %s, should be %s", x, x.TargetToWork(), w)
			prev := new(big.Int).Sub(top, w)
			prev = clamp(new(big.Int).SetUint64(t.U64()), new(big.Int), prev)
			sum := model.FromBig(prev).WorkAppendTarget(x)
			t.Check(sum == model.FromBig(new(big.Int).Add(prev, w)), "work-sum", "%x plus the work for target %s is said to be %s", prev, x, sum)
		}
	}}

// fake chain: blocks by id, never mined.
type fake struct {
	w   *model.World
	all map[core.HashT]*model.Block
}

func (f fake) GetBlock(id core.HashT) core.Block   { return f.all[id].B }
func (f fake) GetBlockHeight(id core.HashT) uint64 { return f.all[id].Height }
func (f fake) GetBlockParentId(id core.HashT) core.HashT {
	return f.all[id].Parent.Id
}
func (f fake) GetBlockAncestors(id core.HashT, n int) []core.HashT {
	var out []core.HashT
	b := f.all[id]
	for i := 0; i < n; i++ {
		b = b.Parent
		out = append(out, b.Id)
		if b.Height == 0 {
			break
		}
	}
	return out
}
func (f fake) GetBlockSpecificAncestor(id core.HashT, d int) core.HashT {
	b := f.all[id]
	for i := 0; i < d && b.Height > 0; i++ {
		b = b.Parent
	}
	return b.Id
}

// ArmSynthetic computes next targets over chains with targets too hard to mine.
var ArmSynthetic = pbt.Arm{Name: "next-target", Rule: "Chains of up to three difficulty periods (of 4 to 200 blocks) with arbitrary starting targets, " +
	"block times and timestamps (slow, fast, equal, out of order, at extremes, but last of a period after its first) presented to NextTarget; " +
	"the result is compared with big-integer arithmetic for every block. Non-trivial: a boundary was reached.",
	Quick: 3000, Thorough: 100000, Run: func(t *pbt.T) {
		max := clamp(Big256(t), big.NewInt(1), cap254)
		orig := clamp(Big256(t), big.NewInt(1), max)
		if t.Bool() {
			max = new(big.Int).Rsh(cap254, uint(t.Intn(60)))
			orig = clamp(new(big.Int).Rsh(max, uint(t.Intn(40))), big.NewInt(1), max)
		}
		p := core.Params{BlockReward: 1, DifficultyPeriod: uint64(4 + t.Intn(6)), BlockTargetTime: []uint64{10, 1, 720, 7}[t.Intn(4)],
			MaxTarget: model.FromBig(max), OriginalTarget: model.FromBig(orig)}
		if t.Draw(8) == 7 {
			p.DifficultyPeriod = uint64(4 + t.Intn(197))
		}
		w := model.NewWorld(p, func() uint64 { return 1 << 40 })
		f := fake{w, map[core.HashT]*model.Block{w.Root.Id: w.Root}}
		h := w.Root
		n := 1 + t.Intn(int(3*p.DifficultyPeriod)+2)
		t.Note("%s blocks=%d", gen.ParamsLine(p), n)
		pace := t.Weighted(3, 2, 2, 2, 1)
		now := t.Draw(1 << 33)
		for i := 0; i < n; i++ {
			want := w.NextTarget(h)
			if h.Height > 0 && (h.Height+1)%p.DifficultyPeriod == 0 {
				t.NonTrivial()
				t.Note("height %d first %d last %d: next %s", h.Height, w.PeriodFirst(h).B.MinedTime, h.B.MinedTime, want)
			}
			got := core.NextTarget(p, f, h.Id)
			t.Check(got == want, "next-target", "at height %d (first of the period %d, last %d, target %s) the next target is %s, should be %s",
				h.Height, w.PeriodFirst(h).B.MinedTime, h.B.MinedTime, h.B.Target, got, want)
			switch pace {
			case 0:
				now += p.BlockTargetTime
			case 1:
				now += t.Draw(8*p.BlockTargetTime + 1)
			case 2:
				now += t.Draw(p.BlockTargetTime/2 + 2)
			case 3:
				now += t.Draw(3)
			case 4:
				now += t.Draw(1 << 30)
			}
			tm := now
			if t.Draw(6) == 5 {
				tm = now - t.Draw(now+1)%(3*p.BlockTargetTime)
			}
			b := core.Block{PrevBlockId: h.Id, Target: want, MinedTime: tm, Nonce: uint64(i)}
			x := &model.Block{B: b, Height: h.Height + 1, Parent: h, Work: new(big.Int)}
			x.Id = model.Bid(b)
			if (x.Height+1)%p.DifficultyPeriod == 0 {
				if first := w.PeriodFirst(x).B.MinedTime; x.B.MinedTime <= first {
					x.B.MinedTime = first + 1 + t.Draw(2)
				}
			}
			if model.Big(want).Sign() == 0 {
				return // no block can beat it
			}
			if h.Height > 0 && x.Height%p.DifficultyPeriod != 0 {
				t.Check(want == h.B.Target, "inside-period", "model error")
			}
			f.all[x.Id] = x
			h = x
		}
	}}

// ArmLong grows real chains over several periods with the honest targets.
var ArmLong = pbt.Arm{Name: "honest-chain", Rule: "Chains of up to five difficulty periods are grown in a real inventory with the computed targets; each " +
	"block must be accepted and each next target must be computable, equal to the reference and the same from a second inventory that received the " +
	"same blocks. Timestamps slow, fast and irregular. Non-trivial: at least one adjustment.",
	Quick: 600, Thorough: 20000, Bubble: true, Run: func(t *pbt.T) {
		p := gen.Params(t)
		m := rules.New(t, p)
		i2 := inv.NewInv(p, nil)
		n := 1 + t.Intn(int(p.DifficultyPeriod)*5)
		h := m.W.Root
		pace := t.Weighted(3, 2, 2)
		for k := 0; k < n; k++ {
			tg := m.W.NextTarget(h)
			if model.Big(tg).BitLen() < 244 { // too many hashes to go on
				break
			}
			tm := gen.BlockTime(t, m.W, h)
			if pace == 1 {
				tm = max(m.W.MinTime(h), h.B.MinedTime+2*p.BlockTargetTime)
			}
			if h.Height == 0 {
				tm = m.W.Now() - 20000
			}
			if tm > m.W.Now()+3600 {
				break
			}
			s := gen.Block(m.W, h, nil, gen.BlockOpts{Pay: gen.K(0).Pkh, Time: tm, Target: &tg, Salt: m.Salt()})
			if h.Height > 0 && (h.Height+1)%p.DifficultyPeriod == 0 {
				t.NonTrivial()
			}
			if !m.Spec(s, "") {
				return
			}
			i2.StoreTx(s.Txs[0])
			i2.StoreMerkle(s.Merkles[0])
			if err := i2.StoreBlock(s.Block); err != nil {
				t.Fail("nodes-differ", "another node refuses the block: %v", err)
			}
			h = m.W.Blocks[s.Id()]
			a, b := core.NextTarget(p, m.I, h.Id), core.NextTarget(p, i2, h.Id)
			t.Check(a == b, "nodes-differ", "two nodes compute %s and %s", a, b)
		}
	}}

// ArmTree compares ancestry queries with the tree.
var ArmTree = pbt.Arm{Name: "tree", Rule: "Random trees of up to 40 blocks (bushy, comb-like, two long branches) over up to several difficulty periods, in memory " +
	"and on disk; height, total work and every ancestry query of the inventory are compared with parent pointers for random and boundary pairs. " +
	"Non-trivial: the tree has a branching above the root's height.",
	Quick: 800, Thorough: 30000, Bubble: true, Run: func(t *pbt.T) {
		p := gen.Params(t)
		var dir *string
		if t.Draw(6) == 5 {
			d := t.TempDir()
			dir = &d
		}
		m := rules.New(t, p)
		m.I = inv.NewInv(p, dir)
		n := 1 + t.Intn(40)
		style := t.Weighted(3, 2, 2)
		kids := map[core.HashT]int{}
		for k := 0; k < n; k++ {
			par := m.Tips[len(m.Tips)-1]
			switch style {
			case 0:
				par = m.Parent()
			case 1: // two branches
				if len(m.Tips) > 2 && t.Bool() {
					par = m.Tips[len(m.Tips)-2]
				}
			case 2:
				if t.Draw(5) == 4 {
					par = m.Tips[t.Intn(len(m.Tips))]
				}
			}
			s := m.Valid(par, 0)
			if m.Spec(s, "") {
				kids[par.Id]++
				if kids[par.Id] == 2 {
					t.NonTrivial()
				}
			}
		}
		CheckTree(t, m.I, m.W, m.Tips)
		if dir != nil { // and after reopening
			CheckTree(t, inv.NewInv(p, dir), m.W, m.Tips)
		}
	}}

// ArmDeep does so with long branches.
var ArmDeep = pbt.Arm{Name: "deep", Rule: "Two or three branches of 50 to 450 empty blocks from drawn forks, periods of 4 to 128 blocks; height, total work and the " +
	"ancestry queries as for the trees. Non-trivial: branches of more than 100 blocks.",
	Quick: 150, Thorough: 3000, Bubble: true, Run: func(t *pbt.T) {
		p := gen.Params(t)
		p.DifficultyPeriod = []uint64{4, 8, 32, 128}[t.Intn(4)]
		p.BlockTargetTime = 1 + t.Draw(60)
		m := rules.New(t, p)
		m.I = inv.NewInv(p, nil)
		bs := []*model.Block{m.W.Root}
		most := 0
		for k := 2 + t.Intn(2); k > 0; k-- {
			h := bs[t.Intn(len(bs))]
			n := 50 + t.Intn(200)
			if t.Draw(3) == 2 {
				n += t.Intn(200)
			}
			for i := 0; i < n; i++ {
				tm := h.B.MinedTime + p.BlockTargetTime
				if h == m.W.Root {
					tm = m.W.Now() - 90000
				} else if t.Draw(8) == 7 {
					tm += t.Draw(3 * p.BlockTargetTime)
				}
				tm = max(tm, m.W.MinTime(h))
				tg := m.W.NextTarget(h)
				if tm > m.W.Now()+3600 || model.Big(tg).BitLen() < 246 {
					break
				}
				s := gen.Block(m.W, h, nil, gen.BlockOpts{Pay: gen.K(0).Pkh, Time: tm, Target: &tg, Salt: m.Salt()})
				if !m.Spec(s, "") {
					return
				}
				h = m.W.Blocks[s.Id()]
				bs = append(bs, h)
				most = max(most, i)
			}
		}
		if most > 100 {
			t.NonTrivial()
		}
		CheckTree(t, m.I, m.W, bs)
	}}

func ids(ls []*model.Block) []core.HashT {
	out := make([]core.HashT, len(ls))
	for i := range ls {
		out[i] = ls[i].Id
	}
	return out
}

func same(a, b []core.HashT) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// CheckTree compares an inventory's ancestry queries with parent pointers.
func CheckTree(t *pbt.T, i *inv.Inv, w *model.World, bs []*model.Block) {
	str := func(b *model.Block) string { return fmt.Sprintf("block %s (height %d)", b.Id.String()[:8], b.Height) }
	for _, b := range bs {
		t.Check(i.HasBlock(b.Id), "has", "%s is absent", str(b))
		t.Check(i.GetBlockHeight(b.Id) == b.Height, "height", "%s has height %d", str(b), i.GetBlockHeight(b.Id))
		t.Check(i.GetBlockTotalWork(b.Id) == model.FromBig(b.Work), "work", "%s has total work %s, should be %s", str(b), i.GetBlockTotalWork(b.Id), model.FromBig(b.Work))
		if b.Height > 0 {
			t.Check(i.GetBlockParentId(b.Id) == b.Parent.Id, "parent", "%s has parent %s", str(b), i.GetBlockParentId(b.Id))
			t.Check(i.GetBlock(b.Id) == b.B, "content", "%s has other content", str(b))
		}
	}
	for k := 0; k < 30; k++ {
		a, b := bs[t.Intn(len(bs))], bs[t.Intn(len(bs))]
		l := model.LCA(a, b)
		t.Check(i.GetBlockLCA(a.Id, b.Id) == l.Id, "lca", "the common ancestor of %s and %s is said to be %s, is %s", str(a), str(b), i.GetBlockLCA(a.Id, b.Id), str(l))
		d, ok := i.GetBlockAncestorDepth(a.Id, b.Id)
		if l == b {
			t.Check(ok && d == a.Height-b.Height, "depth", "the depth of %s under %s is said to be %d, %v", str(b), str(a), d, ok)
			var mid []*model.Block
			for x := a; x != b && x.Parent != b; x = x.Parent {
				mid = append(mid, x.Parent)
			}
			got := i.GetBlockAncestorsUntil(a.Id, b.Id)
			t.Check(same(got, ids(mid)), "until", "the blocks between %s and %s are said to be %v, are %v", str(a), str(b), got, ids(mid))
		} else {
			t.Check(!ok, "depth", "%s is said to be an ancestor of %s", str(b), str(a))
		}
		if a.Height > 0 {
			n := t.Intn(int(a.Height) + 3)
			var anc []*model.Block
			x := a
			for j := 0; j < n && x.Height > 0; j++ {
				x = x.Parent
				anc = append(anc, x)
			}
			got := i.GetBlockAncestors(a.Id, n)
			t.Check(same(got, ids(anc)), "ancestors", "the %d ancestors of %s are said to be %v, are %v", n, str(a), got, ids(anc))
			t.Check(i.GetBlockSpecificAncestor(a.Id, n) == x.Id, "nth", "the %d-th ancestor of %s is said to be %s, is %s", n, str(a),
				i.GetBlockSpecificAncestor(a.Id, n), str(x))
		}
		ask := []core.HashT{model.T(t.Hash32()), a.Id}
		if t.Bool() {
			ask = append(ask[1:], ask[0])
		}
		var first core.HashT
		found := false
		for _, q := range ask {
			if _, known := w.Blocks[q]; known && !found {
				first, found = q, true
			}
		}
		got, ok := i.HasAnyBlock(ask)
		t.Check(ok == found && got == first, "has-any", "of %v the first known is said to be %s, %v", ask, got, ok)
	}
}
