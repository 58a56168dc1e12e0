//go:build go1.25

package c10

import (
	"testing"

	"github.com/levilutz/basiccoin/internal/zverif/history"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
)

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{history.ArmReplay, history.ArmState, history.LargeReplay})
}
