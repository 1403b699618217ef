package vm

//verif:file P05

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/vm/util"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// ---- pricing

// priceOK: side conditions every real quota table satisfies (ctTablesP05).
func priceOK(q *util.QuotaTable) bool {
	return q != nil && q.MemQuotaDivision >= 2 && q.MemQuota >= 1 && q.MemQuota <= 1<<20 && q.ExpByteQuota <= 1<<20 && q.LogTopicQuota <= 1<<32
}

//verif:lemma
//verif:prop P05
func ctTablesP05(h *[14]uint64, height uint64) {
	upgrade.ZZForks(h)
	zv.Ensures("side-conditions", priceOK(util.QuotaTableByHeight(height)))
}

// memPrice is the price of w words of memory.
func memPrice(q *util.QuotaTable, w zv.Z) zv.Z {
	return w.Mul(zv.U(q.MemQuota)).Add(w.Mul(w).Div(zv.U(q.MemQuotaDivision)))
}

func wordsOf(n zv.Z) zv.Z { return n.Add(zv.N(31)).Div(zv.N(32)) }

// memOK: memory is a whole number of words and what was paid so far is the price of its size
// (no block has as much as 2^31 quota to spend).
func memOK(q *util.QuotaTable, m *memory) bool {
	return m != nil && len(m.store)%32 == 0 && len(m.store) <= 1<<36 && m.lastGasCost <= 1<<31 && zv.U(m.lastGasCost).Eq(memPrice(q, zv.N(len(m.store)/32)))
}

const memTooBig = 0xffffffffe0

// memFee is the additional price for growing the memory to size bytes.
func memFee(q *util.QuotaTable, m *memory, size uint64) zv.Z {
	if !memGrows(m, size) {
		return zv.N(0)
	}
	return memPrice(q, wordsOf(zv.U(size))).Sub(zv.U(m.lastGasCost))
}

func memGrows(m *memory, size uint64) bool {
	return size > 0 && wordsOf(zv.U(size)).Mul(zv.N(32)).Gt(zv.N(len(m.store)))
}

func affordable(size uint64) bool { return size <= 1<<37-32 }

//verif:contract memoryGasCost
//verif:prop P05
func ctMemoryGasCost(vm *VM, mem *memory, size uint64) {
	zv.Requires(vm != nil && priceOK(vm.gasTable) && memOK(vm.gasTable, mem))
	last := mem.lastGasCost
	want := memFee(vm.gasTable, mem, size)
	grows := memGrows(mem, size)
	fee, charge, err := memoryGasCost(vm, mem, size)
	zv.Ensures("a-charge", charge)
	zv.Ensures("rejected-iff-too-big", (err != nil) == (size > memTooBig))
	if affordable(size) {
		zv.Ensures("exact-fee", zv.U(fee).Eq(want))
		zv.Ensures("paid-so-far", zv.U(mem.lastGasCost).Eq(zv.U(last).Add(want)))
	}
	// from 2^32 words (128 GiB) on the square may wrap, but the fee stays out of reach
	if !affordable(size) && err == nil && grows {
		zv.Ensures("unaffordable", zv.U(fee).Ge(zv.Pow2(31)))
	}
}

// gasOf runs an instruction's pricing as the latest fork's instruction set dispatches it.
func gasOf(op opCode, vm *VM, data []*big.Int, mem *memory, size uint64) (uint64, bool, error) {
	return earthInstructionSet[op].gasCost(vm, nil, &stack{data: data}, mem, size)
}

func gasPre(vm *VM, data []*big.Int, mem *memory, size uint64, n int) {
	zv.Requires(vm != nil && priceOK(vm.gasTable) && memOK(vm.gasTable, mem) && len(data) >= n && affordable(size))
	for i := 0; i < n; i++ {
		x := data[len(data)-1-i]
		zv.Requires(x != nil && zv.B(x).Ge(zv.N(0)) && zv.B(x).Lt(zv.Pow2(256)))
	}
}

func gasPost(want zv.Z, gas uint64, charge bool, err error) {
	zv.Ensures("a-charge", charge)
	zv.Ensures("rejected-iff-overflow", (err != nil) == want.Ge(zv.Pow2(64)))
	zv.Ensures("exact-price", err != nil || zv.U(gas).Eq(want))
}

func top(data []*big.Int, i int) zv.Z { return zv.B(data[len(data)-1-i]) }

// The instructions that move a length-dependent number of bytes: base price, price per word of the
// length operand, plus memory growth.
//
//verif:contract gasCallDataCopy
//verif:prop P05
//verif:cases n 0 3
func ctGasCopy(vm *VM, data []*big.Int, mem *memory, size uint64, n int) {
	zv.Requires(n >= 0 && n <= 3)
	gasPre(vm, data, mem, size, 3)
	q := vm.gasTable
	op, base, per, l := CALLDATACOPY, q.CallDataCopyQuota, q.MemCopyWordQuota, top(data, 2)
	switch n {
	case 1:
		op, base = CODECOPY, q.CodeCopyQuota
	case 2:
		op, base = RETURNDATACOPY, q.ReturnDataCopyQuota
	case 3:
		op, base, per, l = BLAKE2B, q.Blake2bQuota, q.Blake2bWordQuota, top(data, 1)
	}
	fee := memFee(q, mem, size)
	want := fee.Add(zv.U(base)).Add(wordsOf(l).Mul(zv.U(per)))
	gas, charge, err := gasOf(op, vm, data, mem, size)
	zv.Ensures("a-charge", charge)
	zv.Ensures("exact-price", err != nil || zv.U(gas).Eq(want))
	zv.Ensures("rejected-only-for-overflow", err == nil || want.Ge(zv.Pow2(64)) || l.Ge(zv.Pow2(64)))
}

//verif:contract gasMLoad
//verif:prop P05
//verif:cases n 0 4
func ctGasMem(vm *VM, data []*big.Int, mem *memory, size uint64, n int) {
	zv.Requires(n >= 0 && n <= 4)
	gasPre(vm, data, mem, size, 2)
	q := vm.gasTable
	op, base := MLOAD, q.MloadQuota
	switch n {
	case 1:
		op, base = MSTORE, q.MstoreQuota
	case 2:
		op, base = MSTORE8, q.Mstore8Quota
	case 3:
		op, base = RETURN, 0
	case 4:
		op, base = REVERT, 0
	}
	want := memFee(q, mem, size).Add(zv.U(base))
	gas, charge, err := gasOf(op, vm, data, mem, size)
	gasPost(want, gas, charge, err)
}

//verif:contract makeGasLog
//verif:prop P05
//verif:cases n 0 4
func ctGasLog(vm *VM, data []*big.Int, mem *memory, size uint64, n int) {
	zv.Requires(n >= 0 && n <= 4)
	gasPre(vm, data, mem, size, 2)
	q := vm.gasTable
	l := top(data, 1)
	want := memFee(q, mem, size).Add(zv.U(q.LogQuota)).Add(zv.N(n).Mul(zv.U(q.LogTopicQuota))).Add(l.Mul(zv.U(q.LogDataQuota)))
	gas, charge, err := gasOf(LOG0+opCode(n), vm, data, mem, size)
	zv.Ensures("a-charge", charge)
	zv.Ensures("exact-price", err != nil || zv.U(gas).Eq(want))
	zv.Ensures("rejected-only-for-overflow", err == nil || want.Ge(zv.Pow2(64)) || l.Ge(zv.Pow2(64)))
}

//verif:contract gasExp
//verif:prop P05
func ctGasExp(vm *VM, data []*big.Int, mem *memory) {
	gasPre(vm, data, mem, 0, 2)
	q := vm.gasTable
	want := zv.U(q.ExpQuota).Add(zv.N(zv.ByteLen(top(data, 1))).Mul(zv.U(q.ExpByteQuota)))
	gas, charge, err := gasOf(EXP, vm, data, mem, 0)
	gasPost(want, gas, charge, err)
}

// ---- memory requirement of every memory instruction

//verif:contract calcMemSize
//verif:prop P05
func ctMemSize(data []*big.Int) {
	zv.Requires(len(data) >= 7)
	ops := [15]opCode{BLAKE2B, CALLDATACOPY, CODECOPY, RETURNDATACOPY, MLOAD, MSTORE, MSTORE8, LOG0, LOG1, LOG2, LOG3, LOG4, RETURN, REVERT, CALL}
	offs := [15]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3}
	lens := [15]int{1, 2, 2, 2, -32, -32, -1, 1, 1, 1, 1, 1, 1, 1, 4}
	for i := 0; i < 7; i++ {
		x := data[len(data)-1-i]
		zv.Requires(x != nil && zv.B(x).Ge(zv.N(0)) && zv.B(x).Lt(zv.Pow2(256)))
	}
	for n := 0; n < 15; n++ {
		off := top(data, offs[n])
		l := zv.N(-lens[n])
		if lens[n] >= 0 {
			l = top(data, lens[n])
		}
		r := earthInstructionSet[ops[n]].memorySize(&stack{data: data})
		zv.Ensures("covers-exactly-the-touched-bytes", zv.B(r).Eq(zv.If(l.Eq(zv.N(0)), zv.N(0), off.Add(l))))
	}
}

// ---- memory

func rowOK(m *memory) bool { return m != nil && len(m.store) <= 1<<40 }

//verif:contract (*memory).resize
//verif:prop P05
func ctMemResize(m *memory, size uint64, k int) {
	zv.Requires(rowOK(m) && size <= 1<<40 && k >= 0)
	n := len(m.store)
	old := byte(0)
	if k < n {
		old = m.store[k]
	}
	m.resize(size)
	zv.Ensures("length", (size <= uint64(n) && m.len() == n) || (size > uint64(n) && uint64(m.len()) == size))
	zv.Ensures("kept-and-zero-extended", k >= m.len() || m.store[k] == old)
}

//verif:contract (*memory).get
//verif:prop P05
func ctMemGet(m *memory, offset, size int64, k int) {
	zv.Requires(rowOK(m) && size >= 0 && offset >= 0 && (size == 0 || (size <= 1<<40 && offset <= 1<<40 && offset+size <= int64(len(m.store)))) && k >= 0 && int64(k) < size)
	want := m.store[offset+int64(k)]
	a, b := m.get(offset, size), m.getPtr(offset, size)
	zv.Ensures("length", int64(len(a)) == size && int64(len(b)) == size)
	zv.Ensures("bytes", a[k] == want && b[k] == want)
	zv.Ensures("a-copy", zv.Disjoint(a, m.store))
}

//verif:contract (*memory).set
//verif:prop P05
func ctMemSet(m *memory, offset, size uint64, value []byte, k int) {
	zv.Requires(rowOK(m) && zv.Disjoint(m.store, value) && uint64(len(value)) == size && (size == 0 || (size <= 1<<40 && offset <= 1<<40 && offset+size <= uint64(len(m.store)))) && k >= 0 && k < len(m.store))
	n := len(m.store)
	want := m.store[k]
	if uint64(k) >= offset && uint64(k)-offset < size {
		want = value[uint64(k)-offset]
	}
	m.set(offset, size, value)
	zv.Ensures("exactly-the-range", m.store[k] == want && len(m.store) == n)
}

