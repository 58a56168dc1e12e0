//go:build go1.25

// Package c28 runs real node processes.
package c28

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/pkg/core"
)

// The development network's rules, as documented.
var dev = core.Params{
	BlockReward: 1000, DifficultyPeriod: 8, BlockTargetTime: 10, MaxBlockVSize: 1 << 20, MaxTxVSize: 1 << 14,
	MaxTarget:      core.NewHashTFromStringAssert("000000ffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"),
	OriginalTarget: core.NewHashTFromStringAssert("000000ffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"),
}

const epoch = 1700000000

// plan of one block of the tree: its name, parent, payee, seconds after the
// parent, hardest allowed target or the honest one, and the coins it spends.
type plan struct {
	name, parent string
	pay          int
	dt           uint64
	hard         bool
	spend        int // transactions
}

// The tree: a trunk m past the adjustment at height 8; a leaves at 3 and ends
// like the trunk in work; b leaves at 6, is fast and thus short and heavy; c
// leaves at 10; d leaves at 1 and e at the root, e a single block.
func plans() []plan {
	var ps []plan
	add := func(branch string, from string, first, last, pay int, dt uint64, hard bool, spends ...int) {
		par := from
		for h := first; h <= last; h++ {
			n := fmt.Sprintf("%s%d", branch, h)
			s := 0
			for i, v := range spends {
				if first+i == h {
					s = v
				}
			}
			ps = append(ps, plan{n, par, pay, dt, hard && h == 8, s})
			par = n
		}
	}
	add("m", "", 1, 12, 0, 10, false, 0, 0, 1, 2, 0, 1, 3, 0, 1, 2, 0, 1)
	add("a", "m3", 4, 8, 1, 10, false, 1, 0, 2, 1, 0)
	add("b", "m6", 7, 9, 2, 1, true, 1, 2, 0)
	add("c", "m10", 11, 14, 3, 11, false, 1, 0, 1, 1)
	add("d", "m1", 2, 5, 4, 10, false, 1, 1, 0, 1)
	add("e", "", 1, 2, 3, 10, false, 0, 1)
	return ps
}

// forest is the tree of blocks and what the model says of it.
type forest struct {
	w     *model.World
	specs map[string]gen.Spec
	at    map[string]*model.Block
	name  map[core.HashT]string
	path  map[string][]string // from the root's child to the block
	names []string
}

func build(nonce func(name string, b core.Block) uint64) *forest {
	f := &forest{w: model.NewWorld(dev, func() uint64 { return 1790000000 }), specs: map[string]gen.Spec{}, at: map[string]*model.Block{},
		name: map[core.HashT]string{}, path: map[string][]string{}}
	f.at[""] = f.w.Root
	f.name[f.w.Root.Id] = "the root"
	for _, p := range plans() {
		par := f.at[p.parent]
		l := gen.CopyLedger(f.w.LedgerAt(par))
		var txs []core.Tx
		coins := gen.Coins(l)
		for i := 0; i < p.spend && i < len(coins); i++ {
			c := coins[(i*3+len(p.name)+int(par.Height))%len(coins)]
			if c.U.Value < 10 || used(txs, c.U) {
				continue
			}
			to := gen.K((p.pay + i + 1) % gen.NKeys).Pkh
			v := c.U.Value/3 + uint64(i)
			txs = append(txs, gen.MakeTx(0, []gen.Coin{c}, []core.TxOut{{Value: v, PublicKeyHash: to}, {Value: c.U.Value - v - 1 - uint64(i), PublicKeyHash: c.K.Pkh}}))
		}
		o := gen.BlockOpts{Pay: gen.K(p.pay).Pkh, Time: epoch, NoMine: true}
		if par.Height > 0 {
			o.Time = max(par.B.MinedTime+p.dt, f.w.MinTime(par))
		}
		if p.hard {
			lo, _ := f.w.TargetBounds(par.B.Target)
			tg := model.FromBig(lo)
			o.Target = &tg
		}
		s := gen.Block(f.w, par, txs, o)
		s.Block.Noise = model.T(model.BytesHash([]byte(p.name)))
		s.Block.Nonce = nonce(p.name, s.Block)
		for _, tx := range s.Txs {
			if r := f.w.CheckTx(tx); !r.Ok() {
				panic("infrastructure: transaction of " + p.name + ": " + r.String())
			}
			f.w.PutTx(tx)
		}
		for _, m := range s.Merkles {
			f.w.PutMerkle(m)
		}
		if r := f.w.CheckBlock(s.Block); !r.Ok() {
			panic("infrastructure: block " + p.name + ": " + r.String())
		}
		b := f.w.PutBlock(s.Block)
		if l := f.w.LedgerAt(b); l.Bad != "" {
			panic("infrastructure: chain of " + p.name + ": " + l.Bad)
		}
		f.specs[p.name], f.at[p.name], f.name[b.Id] = s, b, p.name
		f.path[p.name] = append(append([]string{}, f.path[p.parent]...), p.name)
		f.names = append(f.names, p.name)
	}
	return f
}

func used(txs []core.Tx, u core.Utxo) bool {
	for _, t := range txs {
		for _, i := range t.Inputs {
			if i.Utxo == u {
				return true
			}
		}
	}
	return false
}

// grind finds a nonce with all processors.
func grind(b core.Block) uint64 {
	var pre [320]byte // five times 32 zeros, then the parts
	for i, h := range []core.HashT{b.PrevBlockId, b.MerkleRoot, b.Target, b.Noise} {
		d := h.Data()
		copy(pre[160+32*i:], d[:])
	}
	target := b.Target.Data()
	var found atomic.Uint64
	var wg sync.WaitGroup
	const par = 6
	for k := uint64(0); k < par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := pre
			var nb [8]byte
			for n := k + 1; ; n += par {
				if n&0xfff < par && found.Load() != 0 {
					return
				}
				binary.BigEndian.PutUint64(nb[:], n)
				x := sha256.Sum256(nb[:])
				x = sha256.Sum256(x[:])
				copy(p[288:], x[:])
				y := sha256.Sum256(p[:])
				y = sha256.Sum256(y[:])
				if string(y[:]) < string(target[:]) {
					found.CompareAndSwap(0, n)
					return
				}
			}
		}()
	}
	wg.Wait()
	return found.Load()
}

// Regenerate writes the nonces of the tree.
func regenerate(path string) {
	got := map[string]uint64{}
	build(func(name string, b core.Block) uint64 {
		got[name] = grind(b)
		fmt.Println(name, got[name])
		return got[name]
	})
	var names []string
	for n := range got {
		names = append(names, n)
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("//go:build go1.25\n\npackage c28\n\n// The nonces of the tree's blocks, found by regenerate (PBT_FIXTURE=path).\nvar nonces = map[string]uint64{\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %d,\n", n, got[n])
	}
	sb.WriteString("}\n")
	if err := os.WriteFile(path, []byte(sb.String()), 0o644); err != nil {
		panic(err)
	}
}

var plant = sync.OnceValue(func() *forest {
	return build(func(name string, b core.Block) uint64 { return nonces[name] })
})
