//go:build go1.25

package c01

import (
	"testing"

	"github.com/levilutz/basiccoin/internal/zverif/history"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
)

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{rules.ArmCoins, rules.ArmAll(rules.OwnCoins), history.ArmCoins, history.LargeCoins})
}
