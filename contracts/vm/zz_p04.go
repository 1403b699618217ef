package vm

//verif:file P04

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/vm/util"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// ---- arithmetic

//verif:contract opAdd
//verif:prop P04
func ctOpAdd(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := arg(data, 0), arg(data, 1)
	_, err := run(ADD, &pc, c, st)
	opPost(st, w, 2, k, err, wrap256(x.Add(y)))
}

//verif:contract opMul
//verif:prop P04
func ctOpMul(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := arg(data, 0), arg(data, 1)
	_, err := run(MUL, &pc, c, st)
	opPost(st, w, 2, k, err, wrap256(x.Mul(y)))
}

//verif:contract opSub
//verif:prop P04
func ctOpSub(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := arg(data, 0), arg(data, 1)
	_, err := run(SUB, &pc, c, st)
	opPost(st, w, 2, k, err, wrap256(x.Sub(y)))
}

//verif:contract opDiv
//verif:prop P04
func ctOpDiv(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := arg(data, 0), arg(data, 1)
	_, err := run(DIV, &pc, c, st)
	want := zv.N(0)
	if !y.Eq(zv.N(0)) {
		want = x.Div(y)
	}
	opPost(st, w, 2, k, err, want)
}

//verif:contract opSdiv
//verif:prop P04
func ctOpSdiv(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := sgn(arg(data, 0)), sgn(arg(data, 1))
	_, err := run(SDIV, &pc, c, st)
	want := zv.N(0)
	if !y.Eq(zv.N(0)) {
		want = wrap256(x.Quo(y))
	}
	opPost(st, w, 2, k, err, want)
}

//verif:contract opMod
//verif:prop P04
func ctOpMod(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := arg(data, 0), arg(data, 1)
	_, err := run(MOD, &pc, c, st)
	want := zv.N(0)
	if !y.Eq(zv.N(0)) {
		want = x.Mod(y)
	}
	opPost(st, w, 2, k, err, want)
}

//verif:contract opSmod
//verif:prop P04
func ctOpSmod(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := sgn(arg(data, 0)), sgn(arg(data, 1))
	_, err := run(SMOD, &pc, c, st)
	want := zv.N(0)
	if !y.Eq(zv.N(0)) {
		want = wrap256(x.Rem(y))
	}
	opPost(st, w, 2, k, err, want)
}

//verif:contract opAddmod
//verif:prop P04
func ctOpAddmod(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 3, k, j, pool)
	x, y, z := arg(data, 0), arg(data, 1), arg(data, 2)
	_, err := run(ADDMOD, &pc, c, st)
	want := zv.N(0)
	if !z.Eq(zv.N(0)) {
		want = x.Add(y).Mod(z)
	}
	opPost(st, w, 3, k, err, want)
}

//verif:contract opMulmod
//verif:prop P04
func ctOpMulmod(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 3, k, j, pool)
	x, y, z := arg(data, 0), arg(data, 1), arg(data, 2)
	_, err := run(MULMOD, &pc, c, st)
	want := zv.N(0)
	if !z.Eq(zv.N(0)) {
		want = x.Mul(y).Mod(z)
	}
	opPost(st, w, 3, k, err, want)
}

// setTop makes the topmost operand the concrete number n.
func setTop(data []*big.Int, n int) {
	zv.Requires(len(data) > 0)
	data[len(data)-1] = big.NewInt(int64(n))
}

// n is case-analysed: every byte position that truncates.
//
//verif:contract opSignExtend
//verif:prop P04
//verif:cases n 0 30
func ctOpSignExtend(data []*big.Int, pool *util.IntPool, k, j int, pc uint64, n int) {
	zv.Requires(n >= 0 && n < 31)
	setTop(data, n)
	c, st, w := opPre(data, 2, k, j, pool)
	x := arg(data, 1)
	_, err := opSignExtend(&pc, nil, c, nil, st)
	low := x.Mod(zv.Pow2(uint(8*n+8)))
	opPost(st, w, 2, k, err, zv.If(low.Lt(zv.Pow2(uint(8*n+7))), low, low.Add(zv.Pow2(256)).Sub(zv.Pow2(uint(8*n+8)))))
}

//verif:contract opSignExtend
//verif:prop P04
func ctOpSignExtendWide(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	zv.Requires(arg(data, 0).Ge(zv.N(31)))
	x := arg(data, 1)
	_, err := run(SIGNEXTEND, &pc, c, st)
	opPost(st, w, 2, k, err, x)
}

//verif:contract opLt
//verif:prop P04
func ctOpLt(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := arg(data, 0), arg(data, 1)
	_, err := run(LT, &pc, c, st)
	opPost(st, w, 2, k, err, b2z(x.Lt(y)))
}

//verif:contract opGt
//verif:prop P04
func ctOpGt(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := arg(data, 0), arg(data, 1)
	_, err := run(GT, &pc, c, st)
	opPost(st, w, 2, k, err, b2z(x.Gt(y)))
}

//verif:contract opSlt
//verif:prop P04
func ctOpSlt(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := sgn(arg(data, 0)), sgn(arg(data, 1))
	_, err := run(SLT, &pc, c, st)
	opPost(st, w, 2, k, err, b2z(x.Lt(y)))
}

//verif:contract opSgt
//verif:prop P04
func ctOpSgt(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := sgn(arg(data, 0)), sgn(arg(data, 1))
	_, err := run(SGT, &pc, c, st)
	opPost(st, w, 2, k, err, b2z(x.Gt(y)))
}

//verif:contract opEq
//verif:prop P04
func ctOpEq(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := arg(data, 0), arg(data, 1)
	_, err := run(EQ, &pc, c, st)
	opPost(st, w, 2, k, err, b2z(x.Eq(y)))
}

//verif:contract opIszero
//verif:prop P04
func ctOpIszero(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 1, k, j, pool)
	x := arg(data, 0)
	_, err := run(ISZERO, &pc, c, st)
	opPost(st, w, 1, k, err, b2z(x.Eq(zv.N(0))))
}

//verif:contract opAnd
//verif:prop P04
func ctOpAnd(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := arg(data, 0), arg(data, 1)
	_, err := run(AND, &pc, c, st)
	opPost(st, w, 2, k, err, x.And(y))
}

//verif:contract opOr
//verif:prop P04
func ctOpOr(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := arg(data, 0), arg(data, 1)
	_, err := run(OR, &pc, c, st)
	opPost(st, w, 2, k, err, x.Or(y))
}

//verif:contract opXor
//verif:prop P04
func ctOpXor(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	x, y := arg(data, 0), arg(data, 1)
	_, err := run(XOR, &pc, c, st)
	opPost(st, w, 2, k, err, x.Xor(y))
}

//verif:contract opNot
//verif:prop P04
func ctOpNot(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 1, k, j, pool)
	x := arg(data, 0)
	_, err := run(NOT, &pc, c, st)
	opPost(st, w, 1, k, err, zv.Pow2(256).Sub(zv.N(1)).Sub(x))
}

//verif:contract opByte
//verif:prop P04
//verif:cases n 0 31
func ctOpByte(data []*big.Int, pool *util.IntPool, k, j int, pc uint64, n int) {
	zv.Requires(n >= 0 && n < 32)
	setTop(data, n)
	c, st, w := opPre(data, 2, k, j, pool)
	x := arg(data, 1)
	_, err := opByte(&pc, nil, c, nil, st)
	opPost(st, w, 2, k, err, x.Div(zv.Pow2(uint(8*(31-n)))).Mod(zv.N(256)))
}

//verif:contract opByte
//verif:prop P04
func ctOpByteOutside(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	zv.Requires(arg(data, 0).Ge(zv.N(32)))
	_, err := run(BYTE, &pc, c, st)
	opPost(st, w, 2, k, err, zv.N(0))
}

func shiftAmount(data []*big.Int) uint {
	if arg(data, 0).Ge(zv.N(256)) {
		return 256
	}
	return uint(data[len(data)-1].Uint64())
}

//verif:contract opSHL
//verif:prop P04
func ctOpSHL(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	s, x := shiftAmount(data), arg(data, 1)
	_, err := run(SHL, &pc, c, st)
	opPost(st, w, 2, k, err, zv.If(s < 256, wrap256(x.Mul(zv.Pow2(s))), zv.N(0)))
}

//verif:contract opSHR
//verif:prop P04
func ctOpSHR(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	s, x := shiftAmount(data), arg(data, 1)
	_, err := run(SHR, &pc, c, st)
	opPost(st, w, 2, k, err, zv.If(s < 256, x.Div(zv.Pow2(s)), zv.N(0)))
}

//verif:contract opSAR
//verif:prop P04
func ctOpSAR(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	s, x := shiftAmount(data), sgn(arg(data, 1))
	// the remaining region is ctOpSARZero
	zv.Requires(s < 256 || !x.Eq(zv.N(0)))
	_, err := run(SAR, &pc, c, st)
	opPost(st, w, 2, k, err, zv.If(s < 256, wrap256(x.Div(zv.Pow2(s))), zv.If(x.Ge(zv.N(0)), zv.N(0), zv.Pow2(256).Sub(zv.N(1)))))
}

// Shifting zero yields zero, however far.
//
//verif:contract opSAR
//verif:prop P04
func ctOpSARZero(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 2, k, j, pool)
	zv.Requires(arg(data, 0).Ge(zv.N(256)) && arg(data, 1).Eq(zv.N(0)))
	_, err := run(SAR, &pc, c, st)
	zv.Ensures("no-error", err == nil)
	zv.Ensures("one-result", len(st.data) == w.l-1)
	zv.Ensures("result-of-shifting-zero", zv.B(st.data[len(st.data)-1]).Eq(zv.N(0)))
}

// ---- pushing, duplicating, swapping, popping

func opPostPush(st *stack, w opWit, k int, err error, want zv.Z) {
	zv.Ensures("no-error", err == nil)
	zv.Ensures("one-more", len(st.data) == w.l+1)
	zv.Ensures("result", zv.B(st.data[len(st.data)-1]).Eq(want))
	zv.Ensures("rest-of-stack-untouched", !w.live || (st.data[k] == w.p && zv.B(st.data[k]).Eq(w.v)))
	separated(st, w, k)
}

//verif:contract opPop
//verif:prop P04
func ctOpPop(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 1, k, j, pool)
	_, err := run(POP, &pc, c, st)
	zv.Ensures("no-error", err == nil)
	zv.Ensures("one-less", len(st.data) == w.l-1)
	zv.Ensures("rest-of-stack-untouched", !w.live || (st.data[k] == w.p && zv.B(st.data[k]).Eq(w.v)))
	restSeparated(w, k)
}

//verif:contract opPc
//verif:prop P04
func ctOpPc(data []*big.Int, pool *util.IntPool, k, j int, pc uint64) {
	c, st, w := opPre(data, 0, k, j, pool)
	want := zv.U(pc)
	_, err := run(PC, &pc, c, st)
	opPostPush(st, w, k, err, want)
}

//verif:contract opCallDataSize
//verif:prop P04
func ctOpCallDataSize(data []*big.Int, pool *util.IntPool, k, j int, pc uint64, in []byte) {
	c, st, w := opPre(data, 0, k, j, pool)
	c.data = in
	_, err := run(CALLDATASIZE, &pc, c, st)
	opPostPush(st, w, k, err, zv.N(len(in)))
}

//verif:contract opCodeSize
//verif:prop P04
func ctOpCodeSize(data []*big.Int, pool *util.IntPool, k, j int, pc uint64, code []byte) {
	c, st, w := opPre(data, 0, k, j, pool)
	c.code = code
	_, err := run(CODESIZE, &pc, c, st)
	opPostPush(st, w, k, err, zv.N(len(code)))
}

//verif:contract opReturnDataSize
//verif:prop P04
func ctOpReturnDataSize(data []*big.Int, pool *util.IntPool, k, j int, pc uint64, ret []byte) {
	c, st, w := opPre(data, 0, k, j, pool)
	c.returnData = ret
	_, err := run(RETURNDATASIZE, &pc, c, st)
	opPostPush(st, w, k, err, zv.N(len(ret)))
}

// byteOr0 reads past the end of code or data as zero.
func byteOr0(b []byte, i zv.Z, j int) zv.Z {
	if i.Lt(zv.N(len(b))) {
		return zv.U(uint64(b[j]))
	}
	return zv.N(0)
}

// PUSHn pushes the n code bytes after the instruction, big-endian, zero past the end of the code.
//
//verif:contract makePush
//verif:prop P04
//verif:cases n 1 32
func ctPush(data []*big.Int, pool *util.IntPool, k, j int, pc uint64, code []byte, n int) {
	zv.Requires(n >= 1 && n <= 32)
	zv.Requires(pc < uint64(len(code)))
	c, st, w := opPre(data, 0, k, j, pool)
	c.code = code
	p0 := pc
	_, err := baseOp(PUSH1 + opCode(n-1))(&pc, nil, c, nil, st)
	want := zv.N(0)
	for i := 0; i < n; i++ {
		q := int(p0) + 1 + i
		want = want.Mul(zv.N(256)).Add(byteOr0(code, zv.N(q), q))
	}
	opPostPush(st, w, k, err, want)
	zv.Ensures("skips-its-bytes", zv.U(pc).Eq(zv.U(p0).Add(zv.N(n))))
}

func baseOp(op opCode) executionFunc {
	t := newBaseInstructionSet()
	return t[op].execute
}

//verif:contract makeDup
//verif:prop P04
//verif:cases n 1 16
func ctDup(data []*big.Int, pool *util.IntPool, k, j int, pc uint64, n int) {
	zv.Requires(n >= 1 && n <= 16 && len(data) >= n)
	c, st, w := opPre(data, 0, k, j, pool)
	src := data[len(data)-n]
	zv.Requires(src != nil && zv.Owned(src) && word(src))
	p := util.ZZPoolLen(pool)
	zv.Requires(p == 0 || util.ZZPoolAt(pool, p-1) != src)
	x := zv.B(src)
	_, err := baseOp(DUP1 + opCode(n-1))(&pc, nil, c, nil, st)
	opPostPush(st, w, k, err, x)
	zv.Ensures("a-copy-not-an-alias", st.data[len(st.data)-1] != src)
	zv.Ensures("source-kept", st.data[w.l-n] == src && zv.B(src).Eq(x))
}

//verif:contract makeSwap
//verif:prop P04
//verif:cases n 1 16
func ctSwap(data []*big.Int, pool *util.IntPool, k, j int, pc uint64, n int) {
	zv.Requires(n >= 1 && n <= 16 && len(data) >= n+1)
	l := len(data)
	a, b := data[l-1], data[l-1-n]
	live := k >= 0 && k < l && k != l-1 && k != l-1-n
	var x *big.Int
	if live {
		x = data[k]
	}
	st := &stack{data: data}
	_, err := baseOp(SWAP1 + opCode(n-1))(&pc, nil, &contract{intPool: pool}, nil, st)
	zv.Ensures("no-error", err == nil)
	zv.Ensures("same-depth", len(st.data) == l)
	zv.Ensures("exchanged", st.data[l-1] == b && st.data[l-1-n] == a)
	zv.Ensures("rest-of-stack-untouched", !live || st.data[k] == x)
}
