//go:build go1.25

package c02

import (
	"testing"

	"github.com/levilutz/basiccoin/internal/zverif/history"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
)

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{rules.ArmSpend, rules.ArmAll(rules.OwnSpend), history.ArmSpend, history.LargeSpend})
}
