//go:build go1.25

package c06

import (
	"testing"

	"github.com/levilutz/basiccoin/internal/zverif/history"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
)

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{rules.ArmShape, rules.ArmAll(rules.OwnShape), history.ArmShape, history.LargeShape})
}
