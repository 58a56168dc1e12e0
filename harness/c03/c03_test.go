//go:build go1.25

package c03

import (
	"testing"

	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
)

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{rules.ArmAuth, rules.ArmReuse, rules.ArmAll(rules.OwnAuth)})
}
