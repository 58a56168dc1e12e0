//go:build go1.25

package c09

import (
	"testing"

	"github.com/levilutz/basiccoin/internal/zverif/history"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
)

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{history.ArmChoice, history.LargeChoice})
}
