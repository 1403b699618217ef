package vm

//verif:file P04 P05

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/vm/util"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// ---- specification helpers

func word(x *big.Int) bool { return zv.B(x).Ge(zv.N(0)) && zv.B(x).Lt(zv.Pow2(256)) }

func wrap256(z zv.Z) zv.Z { return z.Mod(zv.Pow2(256)) }

// signed interpretation of a 256-bit word
func sgn(z zv.Z) zv.Z { return zv.If(z.Lt(zv.Pow2(255)), z, z.Sub(zv.Pow2(256))) }

func b2z(b bool) zv.Z {
	if b {
		return zv.N(1)
	}
	return zv.N(0)
}

// opsOK: n operands on a stack of 256-bit words. No number is referenced twice: the operands,
// the witness slot k below them, the pool slots j and k and the top of the pool (what the pool
// would hand out next) are pairwise different objects, and none is a package constant. k and j
// are arbitrary, so this is the separation invariant "stack and pool hold pairwise distinct
// numbers", instantiated where an instruction can see it.
func opsOK(data []*big.Int, n, k, j int, pool *util.IntPool) bool {
	l := len(data)
	if l < n || !util.ZZPoolOK(pool) || !zv.Disjoint(data, util.ZZPoolData(pool)) {
		return false
	}
	for i := 0; i < n; i++ {
		if data[l-1-i] == nil || !zv.Owned(data[l-1-i]) || !word(data[l-1-i]) {
			return false
		}
		for m := 0; m < i; m++ {
			if data[l-1-i] == data[l-1-m] {
				return false
			}
		}
		if !poolSep(pool, j, data[l-1-i]) || !poolSep(pool, k, data[l-1-i]) || !poolSep(pool, util.ZZPoolLen(pool)-1, data[l-1-i]) {
			return false
		}
	}
	p := util.ZZPoolLen(pool)
	if p > 0 {
		t := util.ZZPoolAt(pool, p-1)
		if t == nil || !zv.Owned(t) {
			return false
		}
		if j != p-1 && !poolSep(pool, j, t) {
			return false
		}
		if k != p-1 && !poolSep(pool, k, t) {
			return false
		}
	}
	if j >= 0 && j < p && k != j && !poolSep(pool, k, util.ZZPoolAt(pool, j)) {
		return false
	}
	return true
}

// poolSep: slot i of the pool, if there is one, does not hold x.
func poolSep(pool *util.IntPool, i int, x *big.Int) bool {
	return i < 0 || i >= util.ZZPoolLen(pool) || util.ZZPoolAt(pool, i) != x
}

func witOK(data []*big.Int, n, k, j int, pool *util.IntPool) bool {
	l := len(data)
	if k < 0 || k >= l-n {
		return true
	}
	w := data[k]
	if w == nil || !word(w) {
		return false
	}
	for i := 0; i < n; i++ {
		if data[l-1-i] == w {
			return false
		}
	}
	return poolSep(pool, util.ZZPoolLen(pool)-1, w) && poolSep(pool, j, w) && poolSep(pool, k, w)
}

type opWit struct {
	live bool
	p    *big.Int
	v    zv.Z
	l    int
	j    int
	pool *util.IntPool
}

func witness(data []*big.Int, n, k, j int, pool *util.IntPool) opWit {
	if k < 0 || k >= len(data)-n {
		return opWit{l: len(data), j: j, pool: pool}
	}
	return opWit{true, data[k], zv.B(data[k]), len(data), j, pool}
}

func opPre(data []*big.Int, n, k, j int, pool *util.IntPool) (*contract, *stack, opWit) {
	zv.Requires(opsOK(data, n, k, j, pool) && witOK(data, n, k, j, pool))
	return &contract{intPool: pool}, &stack{data: data}, witness(data, n, k, j, pool)
}

// separated: the invariant of opsOK holds again afterwards.
func separated(st *stack, w opWit, k int) {
	top := st.data[len(st.data)-1]
	zv.Ensures("result-not-in-the-pool", poolSep(w.pool, w.j, top))
	zv.Ensures("result-is-its-own-number", k < 0 || k >= len(st.data)-1 || st.data[k] != top)
	restSeparated(w, k)
}

func restSeparated(w opWit, k int) {
	zv.Ensures("stack-not-in-the-pool", !w.live || poolSep(w.pool, w.j, w.p))
	zv.Ensures("pool-has-no-duplicates", w.j < 0 || w.j >= util.ZZPoolLen(w.pool) || k == w.j || poolSep(w.pool, k, util.ZZPoolAt(w.pool, w.j)))
}

func opPost(st *stack, w opWit, n, k int, err error, want zv.Z) {
	zv.Ensures("no-error", err == nil)
	zv.Ensures("one-result", len(st.data) == w.l-n+1)
	zv.Ensures("result", zv.B(st.data[len(st.data)-1]).Eq(want))
	zv.Ensures("rest-of-stack-untouched", !w.live || (st.data[k] == w.p && zv.B(st.data[k]).Eq(w.v)))
	separated(st, w, k)
}

func arg(data []*big.Int, i int) zv.Z { return zv.B(data[len(data)-1-i]) }

// run executes one instruction the way the interpreter of the latest fork dispatches it.
func run(op opCode, pc *uint64, c *contract, st *stack) ([]byte, error) {
	return earthInstructionSet[op].execute(pc, nil, c, nil, st)
}

