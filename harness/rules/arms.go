//go:build go1.25

package rules

import "github.com/levilutz/basiccoin/internal/zverif/pbt"

const rule = " A short valid chain is grown in a real inventory and in the reference world; then up to 24 steps offer valid " +
	"or mutated transactions, merkle nodes and blocks, and every verdict is compared both ways, as are height, work and " +
	"the computability of the next target after every accepted block. Non-trivial: a mutated entity was offered."

func arm(name, what string, quick, thorough int, f Focus) pbt.Arm {
	return pbt.Arm{Name: "verdicts-" + name, Rule: what + rule, Quick: quick, Thorough: thorough, Bubble: true,
		Run: func(t *pbt.T) { Run(t, f) }}
}

func cat[K any](ls ...[]K) []K {
	var out []K
	for _, l := range ls {
		out = append(out, l...)
	}
	return out
}

// Which mismatches concern which property.
var (
	OwnCoins = []string{"surplus", "totals", "coinbase-reward", "amount"}
	OwnSpend = []string{"duplicate-input", "unknown-output", "amount", "tx-twice"}
	OwnAuth  = []string{"signature", "owner", "amount", "refused-tx"}
	OwnWork  = []string{"work", "target", "refused-block"}
	OwnTime  = []string{"median", "period-last", "future", "next-target-panics", "refused-block"}
	OwnShape = []string{"unknown-root", "unknown-parent", "first-not-coinbase", "coinbase-height", "second-coinbase",
		"blocksize", "txsize", "coinbase-inputs", "coinbase-outputs", "unknown-child", "tx-twice",
		"refused-tx", "refused-merkle", "refused-block"}
)

// The arms. Each concentrates on one kind of rule but offers everything.
var (
	ArmCoins = arm("coins", "Mutated amounts: sums wrapping 2^64, off by one, claimed amounts, coinbase values.",
		3000, 60000, Focus{Tx: cat(CoinMuts, ShapeMuts[2:3]), Block: BlockCoinMuts, Grow: 6, AvgTx: 2, Own: OwnCoins})
	ArmSpend = arm("spend", "Mutated inputs: the same output twice, unknown or other outputs; blocks with a transaction twice.",
		3000, 60000, Focus{Tx: SpendMuts, Block: BlockShapeMuts[4:5], Merkle: true, Grow: 6, AvgTx: 3, Own: OwnSpend})
	ArmAuth = arm("auth", "Mutated keys and signatures: foreign, damaged, swapped, over other content, other curves.",
		3000, 60000, Focus{Tx: AuthMuts, Grow: 6, AvgTx: 1, Own: OwnAuth})
	ArmWork = arm("work", "Mutated proof of work and targets at and around every bound.",
		3000, 60000, Focus{Block: BlockWorkMuts, Grow: 12, AvgTx: 0, Own: OwnWork})
	ArmTime = arm("time", "Timestamps at and around the median, the first of the period, one hour ahead, and extremes.",
		4000, 80000, Focus{Block: BlockTimeMuts, Grow: 14, AvgTx: 0, Own: OwnTime})
	ArmShape = arm("shape", "Mutated structure: coinbases, repeated or missing transactions, sizes around the limits, merkle nodes combined at random.",
		4000, 80000, Focus{Tx: ShapeMuts, Block: BlockShapeMuts, Merkle: true, Grow: 6, AvgTx: 3, Own: OwnShape})
)

// ArmAll mixes all mutations; only mismatches of the named kinds count.
func ArmAll(own []string) pbt.Arm {
	return arm("all", "All mutations together; a mismatch that concerns another property ends the case.",
		1500, 40000, Focus{Tx: cat(CoinMuts, SpendMuts, AuthMuts, ShapeMuts),
			Block: cat(BlockCoinMuts, BlockShapeMuts, BlockTimeMuts, BlockWorkMuts), Merkle: true, Grow: 10, AvgTx: 2, Own: own})
}

// ArmTargets concentrates on the schedule of targets.
var ArmTargets = arm("schedule", "Timestamps and targets at every boundary over several difficulty periods.",
	2500, 60000, Focus{Block: cat(BlockTimeMuts, BlockWorkMuts[1:2]), Grow: 30, AvgTx: 0,
		Own: []string{"next-target", "next-target-panics", "period-last", "refused-block"}})

// ArmHeights concentrates on height and work of accepted blocks.
var ArmHeights = arm("heights", "Blocks on any parent, with targets at the boundaries.",
	1500, 30000, Focus{Block: cat(BlockWorkMuts[1:2]), Grow: 30, AvgTx: 0, Own: []string{"height"}})
