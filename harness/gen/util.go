//go:build go1.25

package gen

import (
	"math/big"
	"sort"

	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/pkg/core"
)

func rsh(h core.HashT, n uint) *big.Int { return new(big.Int).Rsh(model.Big(h), n) }

func sub(a *big.Int, d uint64) *big.Int { return new(big.Int).Sub(a, new(big.Int).SetUint64(d)) }

func between(lo, hi *big.Int, permille uint64) *big.Int {
	d := new(big.Int).Sub(hi, lo)
	d.Mul(d, new(big.Int).SetUint64(permille))
	d.Div(d, big.NewInt(1000))
	return d.Add(d, lo)
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func has(ls []int, x int) bool {
	for _, v := range ls {
		if v == x {
			return true
		}
	}
	return false
}

func sortSlice[K any](ls []K, less func(a, b K) bool) {
	sort.Slice(ls, func(i, j int) bool { return less(ls[i], ls[j]) })
}

// Sub is a - d as a hash value.
func SubT(h core.HashT, d uint64) core.HashT { return model.FromBig(sub(model.Big(h), d)) }

// AddT is h + d, saturating at the top.
func AddT(h core.HashT, d uint64) core.HashT {
	v := new(big.Int).Add(model.Big(h), new(big.Int).SetUint64(d))
	if v.BitLen() > 256 {
		return h
	}
	return model.FromBig(v)
}
