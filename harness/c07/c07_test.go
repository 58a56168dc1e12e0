//go:build go1.25

package c07

import (
	"testing"

	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
	"github.com/levilutz/basiccoin/internal/zverif/targets"
)

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{targets.ArmSynthetic, targets.ArmLong, rules.ArmTargets})
}
