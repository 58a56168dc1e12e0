//go:build go1.25

package c05

import (
	"testing"

	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
)

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{rules.ArmTime, rules.ArmAll(rules.OwnTime)})
}
