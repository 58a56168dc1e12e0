//go:build go1.25

package history

import "github.com/levilutz/basiccoin/internal/zverif/pbt"

const rule = " Random block trees with withheld, stale, ledger-invalid, incomplete and damaged chain segments, bursts of offers and " +
	"candidate transactions are offered over the bus to a running node; after every step the announced heads and " +
	"transactions, all balances, unspent outputs, confirmations, inclusion blocks, the rich list and mining targets " +
	"are compared with a reference node that replays whole chains. Non-trivial: a reorganisation or an invalid offer."

func arm(name, what string, quick, thorough int, f Focus) pbt.Arm {
	return pbt.Arm{Name: "history-" + name, Rule: what + rule, Quick: quick, Thorough: thorough, Chunk: 25, Bubble: true,
		Run: func(t *pbt.T) { Run(t, f) }}
}

var (
	ArmCoins = arm("coins", "The supply equals the rewards of the chain.", 500, 12000, Focus{AvgTx: 2,
		Own: []string{"supply", "adopted:bad-block:totals", "adopted:bad-tx:surplus", "adopted:bad-tx:amount"}})
	ArmSpend = arm("spend", "Chains that spend an output twice or include a transaction twice.", 800, 16000, Focus{AvgTx: 3,
		W: []int{5, 4, 9, 3, 1, 2, 1, 0, 1}, Own: []string{"adopted:bad-chain:not-unspent", "adopted:bad-chain:included-again",
			"adopted:bad-tx*", "utxos", "candidate-accepted:duplicate-input", "candidate-accepted:unknown-output"}})
	ArmShape = arm("shape", "Transactions below their minimum height and structurally damaged segments.", 500, 10000, Focus{AvgTx: 2,
		W: []int{5, 4, 7, 2, 4, 3, 1, 1, 1}, Own: []string{"adopted:bad-chain:below-min-height", "adopted:bad-block*", "adopted:bad-merkle*", "adopted:bad-tx*"}})
	ArmChoice = arm("choice", "Fork choice.", 1200, 24000, Focus{AvgTx: 1, W: []int{4, 6, 4, 5, 6, 1, 1, 2, 4},
		Own: []string{"heads", "adopted:*", "not-adopted", "height", "balances", "utxos", "confirms", "no-answer*"}})
	ArmReplay = arm("replay", "Reorganisations.", 1200, 24000, Focus{AvgTx: 3, W: []int{3, 9, 2, 6, 1, 5, 0, 0, 2},
		Own: []string{"balances", "utxos", "pending", "confirms", "inclusion", "richlist", "supply", "not-adopted", "target"}})
	ArmTargets = arm("targets", "Mining targets with many pending, conflicting, dependent and early transactions and tight blocks (here non-trivial means a target listing two or more).", 1200, 24000,
		Focus{AvgTx: 1, W: []int{4, 4, 1, 2, 1, 16, 1, 1, 1}, Own: []string{"target"}, Steps: 50, Grow: 12,
			NT: func(h *H) bool { return h.listed > 1 }})
)
