package vm

//verif:file P05

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/vm/util"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// step executes one instruction the way the interpreter of the latest fork dispatches it.
func step(op opCode, pc *uint64, c *contract, m *memory, st *stack) ([]byte, error) {
	return earthInstructionSet[op].execute(pc, nil, c, m, st)
}

// inMem: the n bytes from offset are inside the memory (the interpreter grew it, ctMemSize).
func inMem(m *memory, offset, n zv.Z) bool {
	return n.Eq(zv.N(0)) || offset.Add(n).Le(zv.N(len(m.store)))
}

func stackRest(st *stack, w opWit, n int, err error) {
	zv.Ensures("no-error", err == nil)
	zv.Ensures("operands-consumed", len(st.data) == w.l-n)
}

//verif:contract opMload
//verif:prop P05
func ctOpMload(data []*big.Int, pool *util.IntPool, pc uint64, m *memory) {
	c, st, w := opPre(data, 1, -1, -1, pool)
	zv.Requires(rowOK(m) && inMem(m, arg(data, 0), zv.N(32)))
	o := data[len(data)-1].Uint64()
	want := zv.Bytes(m.store[o : o+32]).BE()
	_, err := step(MLOAD, &pc, c, m, st)
	opPost(st, w, 1, -1, err, want)
}

//verif:contract opMstore
//verif:prop P05
func ctOpMstore(data []*big.Int, pool *util.IntPool, pc uint64, m *memory, v [32]byte, i int) {
	zv.Requires(len(data) >= 1 && data[len(data)-1] != nil)
	data = append(data[:len(data)-1:len(data)-1], new(big.Int).SetBytes(v[:]), data[len(data)-1])
	c, st, w := opPre(data, 2, -1, -1, pool)
	zv.Requires(rowOK(m) && inMem(m, arg(data, 0), zv.N(32)) && i >= 0 && i < len(m.store))
	o := data[len(data)-1].Uint64()
	n, old := len(m.store), m.store[i]
	_, err := step(MSTORE, &pc, c, m, st)
	for b := 0; b < 32; b++ {
		zv.Ensures("big-endian-byte", m.store[o+uint64(b)] == v[b])
	}
	zv.Ensures("nothing-else", (uint64(i) >= o && uint64(i) < o+32) || m.store[i] == old)
	zv.Ensures("length", len(m.store) == n)
	stackRest(st, w, 2, err)
}

//verif:contract opMstore8
//verif:prop P05
func ctOpMstore8(data []*big.Int, pool *util.IntPool, pc uint64, m *memory, i int) {
	c, st, w := opPre(data, 2, -1, -1, pool)
	zv.Requires(rowOK(m) && inMem(m, arg(data, 0), zv.N(1)) && i >= 0 && i < len(m.store))
	o, v := data[len(data)-1].Uint64(), arg(data, 1).Mod(zv.N(256))
	n, old := len(m.store), m.store[i]
	_, err := step(MSTORE8, &pc, c, m, st)
	zv.Ensures("low-byte", zv.U(uint64(m.store[o])).Eq(v))
	zv.Ensures("nothing-else", uint64(i) == o || m.store[i] == old)
	zv.Ensures("length", len(m.store) == n)
	stackRest(st, w, 2, err)
}

// padded is byte i of src read from offset off, zero beyond the end.
func padded(src []byte, off zv.Z, i int) byte {
	if off.Ge(zv.N(len(src) - i)) {
		return 0
	}
	return src[int(off.Low())+i]
}

//verif:contract opCallDataLoad
//verif:prop P05
func ctOpCallDataLoad(data []*big.Int, pool *util.IntPool, pc uint64, in []byte) {
	c, st, w := opPre(data, 1, -1, -1, pool)
	c.data = in
	off := arg(data, 0)
	var b [32]byte
	for i := 0; i < 32; i++ {
		b[i] = padded(in, off, i)
	}
	want := zv.Bytes(b[:]).BE()
	_, err := step(CALLDATALOAD, &pc, c, nil, st)
	opPost(st, w, 1, -1, err, want)
}

//verif:contract opCallDataCopy
//verif:prop P05
//verif:cases n 0 1
func ctOpCopy(data []*big.Int, pool *util.IntPool, pc uint64, m *memory, in, code []byte, i, n int) {
	zv.Requires(n >= 0 && n <= 1)
	c, st, w := opPre(data, 3, -1, -1, pool)
	c.data, c.code = in, code
	src, op := in, CALLDATACOPY
	if n == 1 {
		src, op = code, CODECOPY
	}
	dst, off, l := arg(data, 0), arg(data, 1), arg(data, 2)
	zv.Requires(rowOK(m) && zv.Disjoint(m.store, in) && zv.Disjoint(m.store, code) && inMem(m, dst, l) && i >= 0 && i < len(m.store))
	size, want := len(m.store), m.store[i]
	if dst.Le(zv.N(i)) && zv.N(i).Lt(dst.Add(l)) {
		want = padded(src, off.Add(zv.N(i)).Sub(dst), 0)
	}
	_, err := step(op, &pc, c, m, st)
	zv.Ensures("exactly-the-range", m.store[i] == want)
	zv.Ensures("length", len(m.store) == size)
	stackRest(st, w, 3, err)
}

//verif:contract opReturnDataCopy
//verif:prop P05
func ctOpReturnDataCopy(data []*big.Int, pool *util.IntPool, pc uint64, m *memory, in []byte, i int) {
	c, st, w := opPre(data, 3, -1, -1, pool)
	c.returnData = in
	dst, off, l := arg(data, 0), arg(data, 1), arg(data, 2)
	zv.Requires(rowOK(m) && zv.Disjoint(m.store, in) && inMem(m, dst, l) && i >= 0 && i < len(m.store))
	size, want := len(m.store), m.store[i]
	ok := off.Add(l).Le(zv.N(len(in)))
	if ok && dst.Le(zv.N(i)) && zv.N(i).Lt(dst.Add(l)) {
		want = padded(in, off.Add(zv.N(i)).Sub(dst), 0)
	}
	_, err := step(RETURNDATACOPY, &pc, c, m, st)
	zv.Ensures("rejected-iff-out-of-range", (err == nil) == ok)
	zv.Ensures("exactly-the-range", m.store[i] == want)
	zv.Ensures("length", len(m.store) == size)
	stackRest(st, w, 3, nil)
}

//verif:contract opReturn
//verif:prop P05
//verif:cases n 0 1
func ctOpReturn(data []*big.Int, pool *util.IntPool, pc uint64, m *memory, i, n int) {
	zv.Requires(n >= 0 && n <= 1)
	c, st, w := opPre(data, 2, -1, -1, pool)
	off, l := arg(data, 0), arg(data, 1)
	zv.Requires(rowOK(m) && inMem(m, off, l) && i >= 0 && zv.N(i).Lt(l))
	want := m.store[int(off.Low())+i]
	op := RETURN
	if n == 1 {
		op = REVERT
	}
	r, err := step(op, &pc, c, m, st)
	zv.Ensures("length", zv.N(len(r)).Eq(l))
	zv.Ensures("bytes", r[i] == want)
	stackRest(st, w, 2, err)
}
