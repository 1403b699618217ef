package vm

//verif:file P05

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/vm/util"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// ---- jump destinations

// bitAt is bit p of a bitmap, most significant bit of each byte first.
//
//verif:spec
func bitAt(s zv.Seq, p int) bool {
	return (s.At(p/8)>>(7-uint(p%8)))&1 == 1
}

//verif:contract (*bitvec).set
//verif:prop P05
//verif:pushdiv
//verif:modular
func ctBitSet(bits *bitvec, pos uint64) {
	zv.Requires(bits != nil && pos/8 < uint64(len(*bits)))
	zv.Modifies(*bits)
	n := len(*bits)
	old := zv.Bytes(*bits)
	zv.Split(int(pos%8), 0, 8)
	bits.set(pos)
	zv.Ensures("exactly-that-bit", zv.Forall(0, 8*n, func(p int) bool {
		return bitAt(zv.Bytes(*bits), p) == (uint64(p) == pos || bitAt(old, p))
	}))
}

//verif:contract (*bitvec).set8
//verif:prop P05
//verif:pushdiv
//verif:modular
func ctBitSet8(bits *bitvec, pos uint64) {
	zv.Requires(bits != nil && pos/8+1 < uint64(len(*bits)))
	zv.Modifies(*bits)
	n := len(*bits)
	old := zv.Bytes(*bits)
	zv.Split(int(pos%8), 0, 8)
	bits.set8(pos)
	zv.Ensures("exactly-those-bits", zv.Forall(0, 8*n, func(p int) bool {
		return bitAt(zv.Bytes(*bits), p) == ((uint64(p) >= pos && uint64(p) < pos+8) || bitAt(old, p))
	}))
}

//verif:contract (*bitvec).codeSegment
//verif:prop P05
//verif:modular
func ctCodeSegment(bits *bitvec, pos uint64) {
	zv.Requires(bits != nil && pos/8 < uint64(len(*bits)))
	zv.ModifiesNothing()
	r := bits.codeSegment(pos)
	zv.Ensures("the-bit", r == !bitAt(zv.Bytes(*bits), int(pos)))
}

// argLen is the number of inline bytes of an instruction.
func argLen(b byte) int {
	if b >= 0x60 && b <= 0x7f {
		return int(b) - 0x5f
	}
	return 0
}

// operandKind is the specification: the number of operand bytes still to come, counting p itself,
// when execution reaches p from the start of the code; 0 means p starts an instruction.
//
//verif:spec
func operandKind(code zv.Seq, p int) int {
	if p <= 0 {
		return 0
	}
	if k := operandKind(code, p-1); k > 0 {
		return k - 1
	}
	return argLen(code.At(p - 1))
}

// operandBytes tabulates operandKind (ghost code of the proof): kind[p] is the number of operand bytes still to come, counting
// p itself, when execution reaches p from the start of the code; 0 means p starts an instruction.
func operandBytes(code []byte) []int {
	kind := make([]int, len(code)+1)
	for p := 0; p < len(code); p++ {
		if kind[p] > 0 {
			kind[p+1] = kind[p] - 1
		} else {
			kind[p+1] = argLen(code[p])
		}
	}
	return kind
}

//verif:inv operandBytes 0
func invOperandBytes(p int, kind []int, code []byte) {
	zv.Invariant("range", p >= 0 && p <= len(code) && len(kind) == len(code)+1)
	zv.Invariant("own", zv.Disjoint(kind, code) && zv.Kept(code))
	zv.Invariant("start", kind[0] == 0)
	zv.Invariant("specified-here", kind[p] == operandKind(zv.Bytes(code), p))
	zv.Invariant("specified", zv.Forall(0, p+1, func(q int) bool { return kind[q] == operandKind(zv.Bytes(code), q) }))
	zv.Invariant("bound", zv.Forall(0, p+1, func(q int) bool { return kind[q] >= 0 && kind[q] <= 32 }))
	zv.Invariant("instruction", zv.Forall(0, p, func(q int) bool { return kind[q] > 0 || kind[q+1] == argLen(code[q]) }))
	zv.Invariant("operand", zv.Forall(0, p, func(q int) bool { return kind[q] == 0 || kind[q+1] == kind[q]-1 }))
	zv.Invariant("run", zv.Forall(0, p+1, func(q int) bool {
		return zv.Forall(q, p+1, func(t int) bool { return t-q > kind[q] || kind[t] == kind[q]-(t-q) })
	}))
}

//verif:contract codeBitmap
//verif:prop P05
//verif:modular
func ctCodeBitmap(code []byte) {
	zv.Requires(len(code) <= 1<<40)
	zv.ModifiesNothing()
	src := zv.Bytes(code)
	kind := operandBytes(code)
	zv.Assert("as-specified", zv.Forall(0, src.Len(), func(q int) bool { return (kind[q] > 0) == (operandKind(src, q) > 0) }))
	bits := codeBitmap(code)
	zv.Ensures("length", len(bits) == len(code)/8+5 && zv.Disjoint(bits, code))
	zv.Assert("tabulated", zv.Forall(0, len(code), func(q int) bool { return bitAt(zv.Bytes(bits), q) == (kind[q] > 0) }))
	zv.Ensures("operand-bytes-marked", analysed(bits, src))
}

func analysed(bits bitvec, code zv.Seq) bool {
	return zv.Forall(0, code.Len(), func(q int) bool { return bitAt(zv.Bytes(bits), q) == (operandKind(code, q) > 0) })
}

func bitmapInv(pc uint64, bits bitvec, code []byte, kind []int) {
	zv.Invariant("own", zv.Disjoint(bits, code) && zv.Disjoint(bits, kind) && zv.Kept(code) && zv.Kept(kind))
	zv.Invariant("range", len(bits) == len(code)/8+5)
	zv.Invariant("marked-so-far", zv.Forall(0, len(code), func(q int) bool {
		return uint64(q) >= pc || bitAt(zv.Bytes(bits), q) == (kind[q] > 0)
	}))
	zv.Invariant("unmarked-after", zv.Forall(0, len(code), func(q int) bool {
		return uint64(q) < pc || !bitAt(zv.Bytes(bits), q)
	}))
}

//verif:inv codeBitmap 0
func invCodeBitmap(pc uint64, bits bitvec, code []byte, kind []int) {
	zv.Invariant("room", pc <= uint64(len(code))+32)
	zv.Invariant("at-instruction", pc >= uint64(len(code)) || kind[int(pc)] == 0)
	bitmapInv(pc, bits, code, kind)
}

//verif:inv codeBitmap 1
func invCodeBitmap8(pc uint64, numbits opCode, bits bitvec, code []byte, kind []int) {
	zv.Invariant("room", numbits <= 32 && pc <= uint64(len(code))+32 && pc+uint64(numbits) <= uint64(len(code))+32)
	zv.Invariant("in-operand", pc > uint64(len(code)) || kind[int(pc)] == int(numbits))
	bitmapInv(pc, bits, code, kind)
}

//verif:inv codeBitmap 2
func invCodeBitmap1(pc uint64, numbits opCode, bits bitvec, code []byte, kind []int) {
	zv.Invariant("room", numbits < 8 && pc <= uint64(len(code))+32 && pc+uint64(numbits) <= uint64(len(code))+32)
	zv.Invariant("in-operand", pc > uint64(len(code)) || kind[int(pc)] == int(numbits))
	bitmapInv(pc, bits, code, kind)
}

// cacheOK: an analysis cached for the code's address is the analysis of this code.
func cacheOK(d destinations, addr types.Address, code []byte) bool {
	m, ok := d[addr]
	return !ok || (len(m) == len(code)/8+5 && zv.Disjoint(m, code) && analysed(m, zv.Bytes(code)))
}

// jumpable: dest is the offset of a jump-destination instruction (not of operand data).
func jumpable(code []byte, dest zv.Z) bool {
	return dest.Lt(zv.N(len(code))) && code[int(dest.Low())] == 0x5b && operandKind(zv.Bytes(code), int(dest.Low())) == 0
}

//verif:contract destinations.has
//verif:prop P05
//verif:modular
func ctHas(d destinations, addr types.Address, code []byte, dest *big.Int) {
	zv.Requires(d != nil && dest != nil && zv.B(dest).Ge(zv.N(0)) && zv.B(dest).Lt(zv.Pow2(256)) && len(code) <= 1<<40)
	zv.Requires(cacheOK(d, addr, code))
	zv.Modifies(d)
	want := jumpable(code, zv.B(dest))
	r := d.has(addr, code, dest)
	zv.Ensures("exactly-the-jump-destinations", r == want)
	zv.Ensures("cache-stays-right", cacheOK(d, addr, code))
}

//verif:contract opJump
//verif:prop P05
func ctOpJump(data []*big.Int, pool *util.IntPool, pc uint64, d destinations, addr types.Address, code []byte) {
	c, st, w := opPre(data, 1, -1, -1, pool)
	zv.Requires(d != nil && len(code) <= 1<<40)
	c.jumpdests, c.codeAddr, c.code = d, addr, code
	zv.Requires(cacheOK(d, addr, code))
	dest := arg(data, 0)
	pc0 := pc
	want := jumpable(code, dest)
	_, err := step(JUMP, &pc, c, nil, st)
	zv.Ensures("rejected-iff-not-a-destination", (err == nil) == want)
	zv.Ensures("lands-there", err != nil || zv.U(pc).Eq(dest))
	zv.Ensures("stays-when-rejected", err == nil || pc == pc0)
	zv.Ensures("operands-consumed", len(st.data) == w.l-1)
}

//verif:contract opJumpi
//verif:prop P05
func ctOpJumpi(data []*big.Int, pool *util.IntPool, pc uint64, d destinations, addr types.Address, code []byte) {
	c, st, w := opPre(data, 2, -1, -1, pool)
	zv.Requires(d != nil && len(code) <= 1<<40)
	c.jumpdests, c.codeAddr, c.code = d, addr, code
	zv.Requires(cacheOK(d, addr, code))
	dest, cond := arg(data, 0), arg(data, 1)
	next := zv.U(pc).Add(zv.N(1)).Mod(zv.Pow2(64))
	want := jumpable(code, dest)
	taken := !cond.Eq(zv.N(0))
	_, err := step(JUMPI, &pc, c, nil, st)
	zv.Ensures("rejected-iff-taken-and-not-a-destination", (err == nil) == (!taken || want))
	zv.Ensures("lands-there", err != nil || !taken || zv.U(pc).Eq(dest))
	zv.Ensures("falls-through", taken || zv.U(pc).Eq(next))
	zv.Ensures("operands-consumed", len(st.data) == w.l-2)
}

// ---- stack requirements

type arity struct {
	op        opCode
	pop, push int
}

func (a *arities) add(pop, push int, ops ...opCode) {
	for _, o := range ops {
		a.l[a.n] = arity{o, pop, push}
		a.n++
	}
}

// arities: what every instruction takes from and leaves on the stack.
type arities struct {
	l [160]arity
	n int
}

func allArities() *arities {
	a := &arities{}
	a.add(2, 1, ADD, MUL, SUB, DIV, SDIV, MOD, SMOD, EXP, SIGNEXTEND, LT, GT, SLT, SGT, EQ, AND, OR, XOR, BYTE, SHL, SHR, SAR, BLAKE2B)
	a.add(3, 1, ADDMOD, MULMOD)
	a.add(1, 1, ISZERO, NOT, BALANCE, CALLDATALOAD, MLOAD, SLOAD)
	a.add(0, 1, ADDRESS, CALLER, CALLVALUE, CALLDATASIZE, CODESIZE, RETURNDATASIZE, TIMESTAMP, HEIGHT, TOKENID, ACCOUNTHEIGHT, PREVHASH, FROMHASH, PC, MSIZE)
	a.add(3, 0, CALLDATACOPY, CODECOPY, RETURNDATACOPY)
	a.add(2, 0, MSTORE, MSTORE8, SSTORE, JUMPI, RETURN, REVERT)
	a.add(0, 0, STOP, JUMPDEST)
	a.add(1, 0, POP, JUMP)
	a.add(5, 0, CALL)
	for i := 0; i < 32; i++ {
		a.add(0, 1, PUSH1+opCode(i))
	}
	for i := 0; i < 16; i++ {
		a.add(i+1, i+2, DUP1+opCode(i))
		a.add(i+2, i+2, SWAP1+opCode(i))
	}
	for i := 0; i < 5; i++ {
		a.add(i+2, 0, LOG0+opCode(i))
	}
	return a
}

// In every fork's on-chain instruction set an instruction is rejected iff the stack has fewer
// elements than it takes, or would exceed 1024 afterwards.
//
//verif:contract makeStackFunc
//verif:prop P05
//verif:unroll 300
//verif:cases n 0 2
func ctArity(data []*big.Int, n int) {
	zv.Requires(n >= 0 && n <= 2)
	sets := [3]*[256]operation{&simpleInstructionSet, &randInstructionSet, &earthInstructionSet}
	set := sets[n]
	st := &stack{data: data}
	l := len(data)
	all := allArities()
	for i := 0; i < all.n; i++ {
		a := all.l[i]
		zv.Ensures("known", set[a.op].valid)
		err := set[a.op].validateStack(st)
		zv.Ensures("enough-and-not-too-many", (err == nil) == (l >= a.pop && l-a.pop+a.push <= 1024))
	}
	if n == 2 {
		err := set[CALL2].validateStack(st)
		zv.Ensures("enough-and-not-too-many", (err == nil) == (l >= 5 && l-4 <= 1024))
	}
}
