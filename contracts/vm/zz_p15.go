package vm

//verif:file P15

import (
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// The instruction set follows the forks, on and off chain; the off-chain one never differs in
// which instructions exist.
//
//verif:contract newInterpreter
//verif:prop P15
func ctInterpreter(h *[14]uint64, height uint64, off bool) {
	upgrade.ZZForks(h)
	r := newInterpreter(height, off)
	earth, seed := height >= h[5], height >= h[0]
	zv.Ensures("earth", !earth || (off && r == offchainEarthInterpreter) || (!off && r == earthInterpreter))
	zv.Ensures("seed", earth || !seed || (off && r == offchainRandInterpreter) || (!off && r == randInterpreter))
	zv.Ensures("base", earth || seed || (off && r == offchainSimpleInterpreter) || (!off && r == simpleInterpreter))
}
