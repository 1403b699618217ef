package vc

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"govc/smt"
)

type intrinsic func(r *Run, fr *Frame, st *State, fn *ssa.Function, args []Val, where string) Val

var intrinsics = map[string]intrinsic{}
var verifFns = map[string]intrinsic{}

func v1(t *T) Val { return Val{C: []*T{t}} }

func (r *Run) bigGet(st *State, ref *T, where string) *T {
	r.nonNil(st, ref, where, "*big.Int")
	return r.bigVal(st, ref)
}

// bigVal reads a big.Int. A number created by a package initialiser is a constant: every write to a
// big.Int carries the obligation that it does not hit one (bigSet), so the read needs no heap.
func (r *Run) bigVal(st *State, ref *T) *T {
	if isGlobalRef(ref) && r.inGlobalInit == 0 {
		if h0, ok := r.heap0["big"]; ok {
			if v, ok := r.c.InitV[[2]int{h0.ID, ref.ID}]; ok && v.IsConst() {
				return v
			}
		}
	}
	return r.heapGet(st, "big", Leaf{Sort: smt.Int, Role: RInt}, ref)
}

func isGlobalRef(ref *T) bool {
	return ref.IsConst() && ref.I.Sign() < 0 && ref.I.Cmp(big.NewInt(freshBase)) > 0
}

func (r *Run) owned(ref *T) *T {
	return r.c.Or(r.c.Le(r.c.Zero, ref), r.c.Le(ref, r.c.I64(freshBase)))
}

func (r *Run) bigSet(st *State, ref *T, v *T, where string) {
	r.nonNil(st, ref, where, "*big.Int")
	r.frameRef(st, ref, where)
	if r.inGlobalInit == 0 {
		r.obligation(st, "safety", "overwrites-package-constant", where, r.owned(ref))
	}
	r.heapSet(st, "big", smt.Int, ref, v)
}

func (r *Run) newBig(st *State, v *T) Val {
	ref := r.newRef()
	r.heapSet(st, "big", smt.Int, ref, v)
	return v1(ref)
}

func (r *Run) abs(x *T) *T { return r.c.Ite(r.c.Le(r.c.Zero, x), x, r.c.Neg(x)) }

func (r *Run) eucDiv(x, y *T) *T {
	c := r.c
	q, _ := r.edm(x, r.abs(y))
	return c.Ite(c.Lt(y, c.Zero), c.Neg(q), q)
}

func (r *Run) eucMod(x, y *T) *T {
	_, m := r.edm(x, r.abs(y))
	return m
}

func (r *Run) bigQuo(x, y *T) *T { return r.quo(x, y) }
func (r *Run) bigRem(x, y *T) *T {
	return r.rem(x, y)
}

// nbytes(v): minimal number of bytes of |v|.
func (r *Run) nbytes(v *T) *T {
	c := r.c
	if v.IsConst() {
		return c.I64(int64((v.I.BitLen() + 7) / 8))
	}
	t := c.App("nbytes", smt.Int, v)
	key := fmt.Sprintf("nbytes%d", t.ID)
	if !r.axioms[key] {
		r.axioms[key] = true
		top := maxLen
		if lo, hi := c.Bounds(v); lo != nil && hi != nil {
			bits := hi.BitLen()
			if n := lo.BitLen(); n > bits {
				bits = n
			}
			if m := big.NewInt(int64((bits + 7) / 8)); m.Cmp(top) < 0 {
				top = m
			}
		}
		r.bound(t, new(big.Int), top)
		r.assumeAbs(c.Eq(c.Eq(t, c.Zero), c.Eq(v, c.Zero)))
		if r.ct != nil && r.ct.ByteVals {
			return t
		}
		// exact for up to 34 bytes: t<=k  <=>  |v| < 256^k
		for k := uint(1); k <= 34; k++ {
			r.assumeAbs(c.Eq(c.Le(t, c.I64(int64(k))), c.And(c.Lt(v, c.Big(pow2(8*k))), c.Lt(c.Neg(c.Big(pow2(8*k))), v))))
		}
	}
	return t
}

type bvalT struct{ row, off, n, t *T }

// bval: big-endian value of row[off..off+n).
func (r *Run) bval(row, off, n *T) *T {
	c := r.c
	if n.IsConst() && n.I.IsInt64() && n.I.Int64() <= 34 {
		res := c.Zero
		for i := int64(0); i < n.I.Int64(); i++ {
			b := c.Select(row, c.Add(off, c.I64(i)))
			if b.Op == "select" || b.Op == "app" {
				r.bound(b, new(big.Int), big.NewInt(255))
			}
			res = c.Add(c.MulC(res, big.NewInt(256)), b)
		}
		return res
	}
	if r.ct != nil && r.ct.ByteVals && !n.Bound && !row.Bound && !off.Bound {
		return r.bvalV(row, off, n, 0)
	}
	if !n.Bound && r.bvalDepth < 4 {
		if cond, a, b, ok := c.SplitIte(n); ok {
			r.bvalDepth++
			defer func() { r.bvalDepth-- }()
			return c.Ite(cond, r.bval(row, off, a), r.bval(row, off, b))
		}
	}
	t := c.App("bval", smt.Int, row, off, n)
	key := fmt.Sprintf("bval%d", t.ID)
	if !r.axioms[key] && !t.Bound {
		r.axioms[key] = true
		r.bound(t, new(big.Int), nil)
		r.assumeAbs(c.Implies(c.Le(n, c.Zero), c.Eq(t, c.Zero)))
		for _, k := range []uint{1, 2, 4, 8, 10, 16, 20, 21, 32} {
			r.assumeAbs(c.Implies(c.Le(n, c.I64(int64(k))), c.Lt(t, c.Big(pow2(8*k)))))
		}
		if _, hi := c.Bounds(n); hi == nil || hi.Cmp(big.NewInt(32)) >= 0 {
			r.assumeAbs(c.Implies(c.Eq(n, c.I64(32)), c.Eq(t, r.bval(row, off, c.I64(32)))))
		}
		for _, o := range r.bvalTerms {
			d := c.App("bvdiff", smt.Int, t, o.t)
			r.assumeAbs(c.Or(c.Eq(t, o.t), c.Not(c.Eq(n, o.n)),
				c.And(c.Le(c.Zero, d), c.Lt(d, n), c.Not(c.Eq(c.Select(row, c.Add(off, d)), c.Select(o.row, c.Add(o.off, d)))))))
		}
		r.bvalTerms = append(r.bvalTerms, bvalT{row, off, n, t})
	}
	return t
}

// bvalV: the same for contracts that only concern the values of numbers, not their bytes: a path
// condition is split off, the value of the minimal encoding of v is v, and nothing is said
// of the length.
func (r *Run) bvalV(row, off, n *T, depth int) *T {
	c := r.c
	if n.IsConst() && n.I.Sign() == 0 {
		return c.Zero
	}
	if row.Op == "app" && row.Name == "bytesrow" && off == c.Zero && n == r.nbytes(row.Args[0]) {
		return r.abs(row.Args[0])
	}
	if depth < 10 {
		var cond *T
		if cd, _, _, ok := c.SplitIte(n); ok {
			cond = cd
		} else if row.Op == "ite" {
			cond = row.Args[0]
		} else if cd, _, _, ok := c.SplitIte(off); ok {
			cond = cd
		}
		if cond != nil {
			alt := func(v *T) *T {
				m := map[int]*T{cond.ID: v}
				return r.bvalV(c.Subst(row, m), c.Subst(off, m), c.Subst(n, m), depth+1)
			}
			return c.Ite(cond, alt(c.True), alt(c.False))
		}
	}
	t := c.App("bval", smt.Int, row, off, n)
	key := fmt.Sprintf("bval%d", t.ID)
	if !r.axioms[key] {
		r.axioms[key] = true
		r.bound(t, new(big.Int), nil)
		r.assumeAbs(c.Implies(c.Le(n, c.Zero), c.Eq(t, c.Zero)))
	}
	return t
}

// bigBytes allocates the minimal big-endian encoding of |v|.
func (r *Run) bigBytes(st *State, v *T) Val {
	c := r.c
	n := r.nbytes(v)
	base := r.newRef()
	srt := smt.ArrSort(smt.Int, smt.Int)
	var row *T
	av := r.abs(v)
	if n.IsConst() && n.I.Int64() <= 34 && v.IsConst() {
		row = c.ConstArr(srt, c.Zero)
		k := n.I.Int64()
		for i := int64(0); i < k; i++ {
			row = c.Store(row, c.I64(i), c.Mod(c.Div(av, c.Big(pow2(uint(8*(k-1-i))))), c.I64(256)))
		}
	} else if r.ct != nil && r.ct.ByteVals {
		row = c.App("bytesrow", srt, v)
		r.assumeAbs(c.Implies(c.Lt(c.Zero, n), c.And(c.Le(c.One, c.Select(row, c.Zero)), c.Le(c.Select(row, c.Zero), c.I64(255)))))
	} else {
		row = c.App("bytesrow", srt, v)
		t := r.bval(row, c.Zero, n)
		r.assumeAbs(c.Eq(t, av))
		i := c.BoundVar("i", smt.Int)
		r.axiom("bytesrow-range", func() *T {
			x := c.BoundVar("v", smt.Int)
			rw := c.App("bytesrow", srt, x)
			s := c.Select(rw, i)
			return c.Forall([]*T{x, i}, c.And(c.Le(c.Zero, s), c.Le(s, c.I64(255))), []*T{s})
		})
		// leading byte nonzero
		r.assumeAbs(c.Implies(c.Lt(c.Zero, n), c.Le(c.One, c.Select(row, c.Zero))))
		// exact bytes for bounded values
		_, hi := c.Bounds(av)
		if hi != nil && hi.BitLen() <= 64 {
			for k := int64(1); k <= 8; k++ {
				var es []*T
				for j := int64(0); j < k; j++ {
					es = append(es, c.Eq(c.Select(row, c.I64(j)), c.Mod(c.Div(av, c.Big(pow2(uint(8*(k-1-j))))), c.I64(256))))
				}
				r.assumeAbs(c.Implies(c.Eq(n, c.I64(k)), c.And(es...)))
			}
		}
	}
	r.heapSet(st, "e:uint8#0", srt, base, row)
	cp := c.Sym("cap", smt.Int)
	r.bound(cp, new(big.Int), maxLen)
	r.assumeAbs(c.Le(n, cp))
	return Val{C: []*T{base, c.Zero, n, cp}}
}

func (r *Run) byteRow(st *State, s Val) *T {
	return r.c.Select(r.heap(st, "e:uint8#0", smt.ArrSort(smt.Int, smt.Int)), s.C[0])
}

// byteAt reads element i (term) of a byte slice.
func (r *Run) byteAt(st *State, s Val, i *T) *T {
	b := r.c.Select(r.byteRow(st, s), r.c.Add(s.C[1], i))
	if b.Op == "select" || b.Op == "app" {
		r.bound(b, new(big.Int), big.NewInt(255))
	}
	return b
}

// seqEq: contents of two byte rows are equal.
func (r *Run) seqEq(row1, off1, n1, row2, off2, n2 *T) *T {
	c := r.c
	if row1 == row2 && off1 == off2 {
		return c.Eq(n1, n2)
	}
	for _, n := range []*T{n1, n2} {
		if n.IsConst() && n.I.IsInt64() && n.I.Int64() <= 72 {
			es := []*T{c.Eq(n1, n2)}
			for i := int64(0); i < n.I.Int64(); i++ {
				es = append(es, c.Eq(c.Select(row1, c.Add(off1, c.I64(i))), c.Select(row2, c.Add(off2, c.I64(i)))))
			}
			return c.And(es...)
		}
	}
	x := c.BoundVar("i", smt.Int)
	a, b := c.Select(row1, c.Add(off1, x)), c.Select(row2, c.Add(off2, x))
	return c.And(c.Eq(n1, n2), c.Forall([]*T{x}, c.Implies(c.And(c.Le(c.Zero, x), c.Lt(x, n1)), c.Eq(a, b))))
}

func (r *Run) bytesEq(st *State, a, b Val) *T {
	return r.seqEq(r.byteRow(st, a), a.C[1], a.C[2], r.byteRow(st, b), b.C[1], b.C[2])
}

func (r *Run) newErr(st *State) Val {
	// fresh non-nil error of an anonymous type
	tag := r.c.I64(1 << 40)
	return Val{C: []*T{tag, r.newRef()}}
}

func init() {
	B := "(*math/big.Int)."
	bin := func(f func(r *Run, x, y *T) *T) intrinsic {
		return func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
			x := r.bigGet(st, a[1].one(), w)
			y := r.bigGet(st, a[2].one(), w)
			r.bigSet(st, a[0].one(), f(r, x, y), w)
			return a[0]
		}
	}
	divg := func(f func(r *Run, x, y *T) *T) intrinsic {
		return func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
			x := r.bigGet(st, a[1].one(), w)
			y := r.bigGet(st, a[2].one(), w)
			r.obligation(st, "safety", "big-div-by-zero", w, r.c.Not(r.c.Eq(y, r.c.Zero)))
			r.bigSet(st, a[0].one(), f(r, x, y), w)
			return a[0]
		}
	}
	un := func(f func(r *Run, x *T) *T) intrinsic {
		return func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
			x := r.bigGet(st, a[1].one(), w)
			r.bigSet(st, a[0].one(), f(r, x), w)
			return a[0]
		}
	}
	intrinsics[B+"Add"] = bin(func(r *Run, x, y *T) *T { return r.c.Add(x, y) })
	intrinsics[B+"Sub"] = bin(func(r *Run, x, y *T) *T { return r.c.Sub(x, y) })
	intrinsics[B+"Mul"] = bin(func(r *Run, x, y *T) *T { return r.c.Mul(x, y) })
	intrinsics[B+"Quo"] = divg(func(r *Run, x, y *T) *T { return r.bigQuo(x, y) })
	intrinsics[B+"Rem"] = divg(func(r *Run, x, y *T) *T { return r.bigRem(x, y) })
	intrinsics[B+"Div"] = divg(func(r *Run, x, y *T) *T { return r.eucDiv(x, y) })
	intrinsics[B+"Mod"] = divg(func(r *Run, x, y *T) *T { return r.eucMod(x, y) })
	intrinsics[B+"And"] = bin(func(r *Run, x, y *T) *T { return r.bigBit("and", x, y) })
	intrinsics[B+"Or"] = bin(func(r *Run, x, y *T) *T { return r.bigBit("or", x, y) })
	intrinsics[B+"Xor"] = bin(func(r *Run, x, y *T) *T { return r.bigBit("xor", x, y) })
	intrinsics[B+"Neg"] = un(func(r *Run, x *T) *T { return r.c.Neg(x) })
	intrinsics[B+"Abs"] = un(func(r *Run, x *T) *T { return r.abs(x) })
	intrinsics[B+"Set"] = un(func(r *Run, x *T) *T { return x })
	intrinsics[B+"Not"] = un(func(r *Run, x *T) *T { return r.c.Sub(r.c.I64(-1), x) })
	intrinsics[B+"SetUint64"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		r.bigSet(st, a[0].one(), a[1].one(), w)
		return a[0]
	}
	intrinsics[B+"SetInt64"] = intrinsics[B+"SetUint64"]
	intrinsics["math/big.NewInt"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return r.newBig(st, a[0].one())
	}
	intrinsics[B+"Cmp"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		c := r.c
		x, y := r.bigGet(st, a[0].one(), w), r.bigGet(st, a[1].one(), w)
		return v1(c.Ite(c.Lt(x, y), c.I64(-1), c.Ite(c.Eq(x, y), c.Zero, c.One)))
	}
	intrinsics[B+"CmpAbs"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		c := r.c
		x, y := r.abs(r.bigGet(st, a[0].one(), w)), r.abs(r.bigGet(st, a[1].one(), w))
		return v1(c.Ite(c.Lt(x, y), c.I64(-1), c.Ite(c.Eq(x, y), c.Zero, c.One)))
	}
	intrinsics[B+"Sign"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		c := r.c
		x := r.bigGet(st, a[0].one(), w)
		return v1(c.Ite(c.Lt(x, c.Zero), c.I64(-1), c.Ite(c.Eq(x, c.Zero), c.Zero, c.One)))
	}
	intrinsics[B+"Uint64"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		x := r.bigGet(st, a[0].one(), w)
		return v1(r.c.Mod(x, r.c.Big(pow2(64))))
	}
	intrinsics[B+"Int64"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		x := r.bigGet(st, a[0].one(), w)
		return v1(r.wrap(x, types.Typ[types.Int64]))
	}
	intrinsics[B+"IsUint64"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		x := r.bigGet(st, a[0].one(), w)
		return v1(r.c.And(r.c.Le(r.c.Zero, x), r.c.Lt(x, r.c.Big(pow2(64)))))
	}
	intrinsics[B+"IsInt64"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		x := r.bigGet(st, a[0].one(), w)
		return v1(r.c.And(r.c.Le(r.c.Neg(r.c.Big(pow2(63))), x), r.c.Lt(x, r.c.Big(pow2(63)))))
	}
	intrinsics[B+"BitLen"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		c := r.c
		x := r.bigGet(st, a[0].one(), w)
		if x.IsConst() {
			return v1(c.I64(int64(x.I.BitLen())))
		}
		t := c.App("bitlen", smt.Int, x)
		key := fmt.Sprintf("bitlen%d", t.ID)
		if !r.axioms[key] {
			r.axioms[key] = true
			r.bound(t, new(big.Int), maxLen)
			for k := uint(0); k <= 520; k++ {
				if k > 66 && k%8 != 0 && k != 255 && k != 257 {
					continue
				}
				p := c.Big(pow2(k))
				r.assumeAbs(c.Eq(c.Le(t, c.I64(int64(k))), c.And(c.Lt(x, p), c.Lt(c.Neg(p), x))))
			}
		}
		return v1(t)
	}
	intrinsics[B+"Bytes"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return r.bigBytes(st, r.bigGet(st, a[0].one(), w))
	}
	intrinsics[B+"Bits"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		// little-endian 64-bit words of |x|; the result shares memory with x in math/big, here it is a
		// fresh slice: writes through it are not modelled (no repository code does that).
		c := r.c
		av := r.abs(r.bigGet(st, a[0].one(), w))
		srt := smt.ArrSort(smt.Int, smt.Int)
		n := c.App("bitswords", smt.Int, av)
		nhi := maxLen
		if _, hi := c.Bounds(av); hi != nil {
			nhi = big.NewInt(int64((hi.BitLen() + 63) / 64))
		}
		r.bound(n, new(big.Int), nhi)
		row := c.App("bitsrow", srt, av)
		for i := int64(0); i <= 8; i++ {
			r.assumeAbs(c.Eq(c.Le(n, c.I64(i)), c.Lt(av, c.Big(pow2(uint(64*i))))))
			if i < 8 {
				row = c.Store(row, c.I64(i), c.Mod(c.Div(av, c.Big(pow2(uint(64*i)))), c.Big(pow2(64))))
			}
		}
		base := r.newRef()
		et := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		r.setRows(st, base, et, []*T{row})
		return Val{C: []*T{base, c.Zero, n, n}}
	}
	intrinsics[B+"SetBytes"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		s := a[1]
		r.bigSet(st, a[0].one(), r.bval(r.byteRow(st, s), s.C[1], s.C[2]), w)
		return a[0]
	}
	intrinsics[B+"Exp"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		c := r.c
		x, y := r.bigGet(st, a[1].one(), w), r.bigGet(st, a[2].one(), w)
		var m *T = c.Zero
		mn := c.Eq(a[3].one(), c.Zero)
		if !mn.IsTrue() {
			m = r.heapGet(st, "big", Leaf{Sort: smt.Int, Role: RInt}, a[3].one())
			if !mn.IsFalse() {
				m = c.Ite(mn, c.Zero, m)
			}
		}
		var v *T
		if x.IsConst() && y.IsConst() && y.I.Sign() >= 0 && m.IsConst() && y.I.BitLen() < 16 {
			if m.I.Sign() != 0 {
				v = c.Big(new(big.Int).Exp(x.I, y.I, m.I))
			} else {
				v = c.Big(new(big.Int).Exp(x.I, y.I, nil))
			}
		} else {
			v = c.App("bigexp", smt.Int, x, y, m)
			r.Trusted["big.Int.Exp uninterpreted"] = true
		}
		r.bigSet(st, a[0].one(), v, w)
		return a[0]
	}
	intrinsics[B+"Lsh"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		c := r.c
		x := r.bigGet(st, a[1].one(), w)
		n := a[2].one()
		var v *T
		if n.IsConst() && n.I.IsInt64() && n.I.Int64() < 4096 {
			v = c.MulC(x, pow2(uint(n.I.Int64())))
		} else {
			v = c.Mul(x, r.pow2t(n))
		}
		r.bigSet(st, a[0].one(), v, w)
		return a[0]
	}
	intrinsics[B+"Rsh"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		c := r.c
		x := r.bigGet(st, a[1].one(), w)
		n := a[2].one()
		var v *T
		if n.IsConst() && n.I.IsInt64() && n.I.Int64() < 4096 {
			v = c.Div(x, c.Big(pow2(uint(n.I.Int64()))))
		} else {
			v = r.eucDiv(x, r.pow2t(n))
		}
		r.bigSet(st, a[0].one(), v, w)
		return a[0]
	}
	intrinsics[B+"String"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		c := r.c
		x := r.heapGet(st, "big", Leaf{Sort: smt.Int, Role: RInt}, a[0].one())
		t := c.App("bigstr", smt.Int, x)
		r.bound(t, new(big.Int), nil)
		r.assumeAbs(c.Eq(c.App("unbigstr", smt.Int, t), x))
		return v1(t)
	}
	intrinsics[B+"SetString"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		c := r.c
		s := a[1].one()
		if s.IsConst() && a[2].one().IsConst() {
			sv := ""
			if k := s.I.Int64(); k > 0 {
				sv = r.strVals[k-1]
			}
			v, ok := new(big.Int).SetString(sv, int(a[2].one().I.Int64()))
			if ok {
				r.bigSet(st, a[0].one(), c.Big(v), w)
				return Val{Parts: []Val{a[0], v1(c.True)}}
			}
			return Val{Parts: []Val{v1(c.Zero), v1(c.False)}}
		}
		if s.Op == "app" && s.Name == "bigstr" && a[2].one().IsConst() && a[2].one().I.Int64() == 10 {
			r.bigSet(st, a[0].one(), s.Args[0], w)
			return Val{Parts: []Val{a[0], v1(c.True)}}
		}
		ok := c.Eq(c.App("bigparse.ok", smt.Int, s, a[2].one()), c.One)
		v := c.App("bigparse.val", smt.Int, s, a[2].one())
		r.bigSet(st, a[0].one(), v, w)
		return Val{Parts: []Val{v1(c.Ite(ok, a[0].one(), c.Zero)), v1(ok)}}
	}
	intrinsics[B+"Bit"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		c := r.c
		x := r.bigGet(st, a[0].one(), w)
		n := a[1].one()
		if n.IsConst() && n.I.IsInt64() {
			return v1(c.Mod(c.Div(x, c.Big(pow2(uint(n.I.Int64())))), c.I64(2)))
		}
		t := c.Mod(r.eucDiv(x, r.pow2t(n)), c.I64(2))
		return v1(t)
	}
	intrinsics["bytes.Equal"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.bytesEq(st, a[0], a[1]))
	}
	intrinsics["bytes.Compare"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.bytesCompare(st, a[0], a[1]))
	}
	intrinsics["encoding/hex.EncodeToString"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		t := r.c.App("hexenc", smt.Int, r.mkStr(r.byteRow(st, a[0]), a[0].C[1], a[0].C[2]))
		r.bound(t, new(big.Int), nil)
		r.assumeAbs(r.c.Eq(r.strlen(st, t), r.c.MulC(a[0].C[2], big.NewInt(2))))
		return v1(t)
	}
	intrinsics["errors.New"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return r.newErr(st)
	}
	intrinsics["github.com/pkg/errors.New"] = intrinsics["errors.New"]
	intrinsics["fmt.Errorf"] = intrinsics["errors.New"]
	intrinsics["github.com/pkg/errors.Errorf"] = intrinsics["errors.New"]
	intrinsics["math/bits.LeadingZeros64"] = nil
	delete(intrinsics, "math/bits.LeadingZeros64")
	for _, n := range []string{"Lock", "Unlock"} {
		intrinsics["(*sync.Mutex)."+n] = nop
		intrinsics["(*sync.RWMutex)."+n] = nop
		intrinsics["(*sync.RWMutex).R"+n] = nop
	}
}

func nop(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
	r.Trusted["sync mutexes are no-ops (single-threaded semantics)"] = true
	return Val{}
}

func (r *Run) pow2t(n *T) *T {
	c := r.c
	t := c.App("pow2", smt.Int, n)
	key := fmt.Sprintf("pow2%d", t.ID)
	if !r.axioms[key] && !t.Bound {
		r.axioms[key] = true
		r.assumeAbs(c.Implies(c.Le(c.Zero, n), c.Le(c.One, t)))
		c.SetBounds(t, big.NewInt(0), nil)
		r.assumeAbs(c.Le(c.Zero, t))
		if r.ct == nil || !r.ct.NoPow2Table {
			for k := int64(0); k <= 264; k++ {
				r.assumeAbs(c.Implies(c.Eq(n, c.I64(k)), c.Eq(t, c.Big(pow2(uint(k))))))
			}
		}
	}
	return t
}

func (r *Run) bigBit(op string, x, y *T) *T {
	c := r.c
	if x.IsConst() && !y.IsConst() {
		x, y = y, x
	}
	xl, _ := c.Bounds(x)
	_ = xl
	if y.IsConst() && y.I.Sign() >= 0 && op == "and" {
		// x mod 2^k semantics hold for negative x too (two's complement)
		m := new(big.Int).Add(y.I, big.NewInt(1))
		if m.TrailingZeroBits() == uint(m.BitLen()-1) {
			return c.Mod(x, c.Big(m))
		}
	}
	if x.IsConst() && y.IsConst() {
		z := new(big.Int)
		switch op {
		case "and":
			z.And(x.I, y.I)
		case "or":
			z.Or(x.I, y.I)
		case "xor":
			z.Xor(x.I, y.I)
		}
		return c.Big(z)
	}
	if y.IsConst() && y.I.Sign() < 0 && op != "xor" {
		m := new(big.Int).Neg(y.I)
		if m.TrailingZeroBits() == uint(m.BitLen()-1) {
			low := c.Mod(x, c.Big(m))
			if op == "or" {
				return c.Sub(low, c.Big(m))
			}
			return c.Sub(x, low)
		}
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	t := c.App("big"+op, smt.Int, x, y)
	key := fmt.Sprintf("bigbit%d", t.ID)
	if !r.axioms[key] {
		r.axioms[key] = true
		g := c.And(c.Le(c.Zero, x), c.Le(c.Zero, y))
		r.assumeAbs(c.Implies(g, c.Le(c.Zero, t)))
		if op == "and" {
			r.assumeAbs(c.Implies(g, c.And(c.Le(t, x), c.Le(t, y))))
		} else {
			r.assumeAbs(c.Implies(g, c.Le(t, c.Add(x, y))))
			p := c.Big(pow2(256))
			r.assumeAbs(c.Implies(c.And(g, c.Lt(x, p), c.Lt(y, p)), c.Lt(t, p)))
		}
	}
	return t
}

// bytesCompare: lexicographic three-way comparison.
func (r *Run) bytesCompare(st *State, a, b Val) *T {
	c := r.c
	ra, rb := r.byteRow(st, a), r.byteRow(st, b)
	if a.C[2].IsConst() && b.C[2].IsConst() && a.C[2] == b.C[2] && a.C[2].I.Int64() <= 34 {
		x, y := r.bval(ra, a.C[1], a.C[2]), r.bval(rb, b.C[1], b.C[2])
		return c.Ite(c.Lt(x, y), c.I64(-1), c.Ite(c.Eq(x, y), c.Zero, c.One))
	}
	t := c.App("bytescmp", smt.Int, ra, a.C[1], a.C[2], rb, b.C[1], b.C[2])
	key := fmt.Sprintf("bytescmp%d", t.ID)
	if !r.axioms[key] {
		r.axioms[key] = true
		r.bound(t, big.NewInt(-1), big.NewInt(1))
		// p: first difference (or min length)
		p := c.App("bytescmp.p", smt.Int, ra, a.C[1], a.C[2], rb, b.C[1], b.C[2])
		mn := c.Ite(c.Le(a.C[2], b.C[2]), a.C[2], b.C[2])
		x := c.BoundVar("i", smt.Int)
		r.assumeAbs(c.And(c.Le(c.Zero, p), c.Le(p, mn)))
		r.assumeAbs(c.Forall([]*T{x}, c.Implies(c.And(c.Le(c.Zero, x), c.Lt(x, p)), c.Eq(c.Select(ra, c.Add(a.C[1], x)), c.Select(rb, c.Add(b.C[1], x))))))
		xa, xb := c.Select(ra, c.Add(a.C[1], p)), c.Select(rb, c.Add(b.C[1], p))
		r.assumeAbs(c.Implies(c.Lt(p, mn), c.And(c.Not(c.Eq(xa, xb)), c.Eq(t, c.Ite(c.Lt(xa, xb), c.I64(-1), c.One)))))
		r.assumeAbs(c.Implies(c.Eq(p, mn), c.Eq(t, c.Ite(c.Lt(a.C[2], b.C[2]), c.I64(-1), c.Ite(c.Eq(a.C[2], b.C[2]), c.Zero, c.One)))))
	}
	return t
}

// packages whose functions have no effect visible to the verified code; results arbitrary.
var havocPkgs = []string{"fmt", "time", "log", "os", "runtime", "runtime/debug", "math/rand", "crypto/rand",
	"github.com/vitelabs/go-vite/v2/log15", "github.com/vitelabs/go-vite/v2/monitor", "github.com/inconshreveable/log15",
	"github.com/vitelabs/go-vite/v2/common/helper/monitor"}

// functions of package time that are executed: the instants' arithmetic (no clock, no zone).
var timeExec = map[string]bool{"time.Unix": true, "time.unixTime": true}

func init() {
	for _, m := range []string{"(*time.Time).", "(time.Time)."} {
		for _, f := range []string{"Unix", "UnixNano", "unixSec", "sec", "nsec", "Add", "Sub", "Before", "After", "Equal", "IsZero", "stripMono", "addSec", "abs"} {
			timeExec[m+f] = true
		}
	}
}

func init() {
	intrinsics["(time.Duration).Seconds"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		r.Trusted["time.Duration.Seconds converts whole seconds exactly"] = true
		return v1(r.c.App("dur.seconds", smt.Int, a[0].one()))
	}
}

// packages treated as deterministic uninterpreted functions of their scalar arguments.
var ufPkgs = []string{"strconv", "strings", "math", "unicode", "regexp", "path/filepath", "path"}

func (r *Run) external(st *State, fn *ssa.Function, pkg string, args []Val, where string) (Val, bool) {
	name := fn.String()
	if timeExec[name] {
		return Val{}, false
	}
	for _, p := range havocPkgs {
		if pkg == p {
			r.Trusted["external "+name+": arbitrary result, no visible effect"] = true
			v := r.havocRes(st, fn.Signature, fn.Name())
			if name == "time.Now" {
				return v, true
			}
			return v, true
		}
	}
	for _, p := range ufPkgs {
		if pkg == p {
			return r.ufCall(st, fn, args, where), true
		}
	}
	if strings.HasSuffix(pkg, "/crypto") || strings.Contains(pkg, "/crypto/") || strings.HasPrefix(pkg, "crypto/") || strings.Contains(pkg, "golang.org/x/crypto") {
		return r.ufCall(st, fn, args, where), true
	}
	if strings.HasSuffix(pkg, "golang/protobuf/proto") || strings.HasSuffix(pkg, "protobuf/proto") {
		if v, ok := r.protoCall(st, fn.Name(), args, where); ok {
			return v, true
		}
		unsup("protobuf call %s at %s", name, where)
	}
	if r.E.isRepo(pkg) || pkg == "" {
		return Val{}, false
	}
	switch pkg {
	case "encoding/binary", "math/bits", "bytes", "errors", "sort", "slices", "cmp", "container/list", "math/big", "unicode/utf8", "internal/byteorder", "encoding/hex":
		if pkg == "math/big" {
			if v, ok := r.bigFloat(st, fn, args, where); ok {
				return v, true
			}
			unsup("unmodelled math/big function %s at %s", name, where)
		}
		return Val{}, false
	}
	unsup("external function %s at %s", name, where)
	return Val{}, false
}

// ufCall: deterministic uninterpreted function over scalars, strings and byte contents.
func (r *Run) ufCall(st *State, fn *ssa.Function, args []Val, where string) Val {
	c := r.c
	name := fn.String()
	r.Trusted["external "+name+": deterministic uninterpreted function of its arguments"] = true
	var ts []*T
	hash := hashFns[name]
	for i, a := range args {
		pt := fn.Params
		var t types.Type
		if i < len(pt) {
			t = pt[i].Type()
		} else {
			t = fn.Signature.Params().At(i).Type()
		}
		if sl, ok := under(t).(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				ts = append(ts, r.mkStr(r.byteRow(st, a), a.C[1], a.C[2]))
				continue
			}
			// variadic [][]byte of constant count
			if sl2, ok := under(sl.Elem()).(*types.Slice); ok && a.C[2].IsConst() && a.C[2].I.Int64() <= 16 {
				if hash {
					// a digest of what was written, however it was cut into pieces
					all := c.Zero
					for k := int64(0); k < a.C[2].I.Int64(); k++ {
						e := r.loadElem(st, a, c.I64(k), sl2)
						all = r.strConcat(st, all, r.mkStr(r.byteRow(st, e), e.C[1], e.C[2]))
					}
					ts = append(ts, all)
					continue
				}
				ts = append(ts, a.C[2])
				for k := int64(0); k < a.C[2].I.Int64(); k++ {
					e := r.loadElem(st, a, c.I64(k), sl2)
					ts = append(ts, r.mkStr(r.byteRow(st, e), e.C[1], e.C[2]))
				}
				name += fmt.Sprintf("/%d", a.C[2].I.Int64())
				continue
			}
			unsup("uninterpreted call %s with slice argument at %s", name, where)
		}
		ts = append(ts, a.C...)
	}
	if hash {
		// equal contents have equal digests
		if r.hashed == nil {
			r.hashed = map[string][]*T{}
		}
		x := ts[len(ts)-1]
		known := false
		for _, y := range r.hashed[name] {
			known = known || x == y
		}
		if !known {
			if l := r.hashed[name]; len(l) <= 24 {
				for _, y := range l {
					r.strEq(y, x)
				}
			}
			r.hashed[name] = append(r.hashed[name], x)
		}
	}
	var vs []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		rt := res.At(i).Type()
		if sl, ok := under(rt).(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				// fresh byte slice whose content is a function of the arguments
				s := c.App(fmt.Sprintf("uf.%s.%d", name, i), smt.Int, ts...)
				r.bound(s, new(big.Int), nil)
				if n, ok := knownLen[fn.String()]; ok {
					vs = append(vs, r.strToBytesN(st, s, c.I64(n)))
				} else if hash && fn.Name() == "Hash" {
					vs = append(vs, r.strToBytesN(st, s, args[0].one()))
				} else {
					vs = append(vs, r.strToBytes(st, s))
				}
				continue
			}
			vs = append(vs, r.havoc(st, rt, fn.Name()))
			continue
		}
		var v Val
		if _, ok := under(rt).(*types.Pointer); ok {
			vs = append(vs, r.havoc(st, rt, fn.Name()))
			continue
		}
		for k, lf := range r.flat(rt) {
			t := c.App(fmt.Sprintf("uf.%s.%d.%d", name, i, k), lf.Sort, ts...)
			r.typeFacts(st, t, lf, nil)
			v.C = append(v.C, t)
		}
		r.shapeAll(st, v, rt)
		vs = append(vs, v)
	}
	return packResults(vs, fn.Signature)
}

const cryptoPkg = "github.com/vitelabs/go-vite/v2/crypto."

var hashFns = map[string]bool{cryptoPkg + "Hash256": true, cryptoPkg + "Hash512": true, cryptoPkg + "Keccak256": true, cryptoPkg + "Hash": true}

var knownLen = map[string]int64{cryptoPkg + "Hash256": 32, cryptoPkg + "Hash512": 64, cryptoPkg + "Keccak256": 32}

// strToBytesN: a fresh byte slice with the content of s, whose length is n.
func (r *Run) strToBytesN(st *State, s, n *T) Val {
	c := r.c
	r.assumeAbs(c.Eq(r.strlen(st, s), n))
	if !n.IsConst() {
		return r.strToBytes(st, s)
	}
	base := r.newRef()
	srt := smt.ArrSort(smt.Int, smt.Int)
	row := c.ConstArr(srt, c.Zero)
	for i := int64(0); i < n.I.Int64(); i++ {
		b := r.strat(s, c.I64(i))
		r.bound(b, new(big.Int), big.NewInt(255))
		row = c.Store(row, c.I64(i), b)
	}
	r.heapSet(st, "e:uint8#0", srt, base, row)
	return Val{C: []*T{base, c.Zero, n, n}}
}

// bigFloat: rounded numbers are opaque; every operation is a deterministic function of its operands and of the
// receiver's precision.
func (r *Run) bigFloat(st *State, fn *ssa.Function, args []Val, where string) (Val, bool) {
	if !strings.HasPrefix(fn.String(), "(*math/big.Float).") || fn.Signature.Variadic() {
		return Val{}, false
	}
	c := r.c
	r.Trusted["external math/big.Float: deterministic uninterpreted functions, no ErrNaN panics"] = true
	lf := Leaf{Sort: smt.Int, Role: RInt}
	isPtr := func(t types.Type, n string) bool { return t.String() == "*math/big."+n }
	recv := args[0].one()
	r.nonNil(st, recv, where, "*big.Float")
	sets := fn.Signature.Results().Len() > 0 && isPtr(fn.Signature.Results().At(0).Type(), "Float")
	var ts []*T
	for i, a := range args {
		t := fn.Signature.Recv().Type()
		if i > 0 {
			t = fn.Signature.Params().At(i - 1).Type()
		}
		switch {
		case isPtr(t, "Float"):
			if i == 0 && sets && fn.Name() != "SetPrec" && fn.Name() != "SetMode" {
				ts = append(ts, r.heapGet(st, "bigfloat.p", lf, a.one()))
				continue
			}
			r.nonNil(st, a.one(), where, "*big.Float")
			ts = append(ts, r.heapGet(st, "bigfloat", lf, a.one()))
		case isPtr(t, "Int"):
			if fn.Name() == "Int" {
				continue
			}
			ts = append(ts, r.bigGet(st, a.one(), where))
		default:
			if len(r.flat(t)) != len(a.C) {
				return Val{}, false
			}
			if _, ok := under(t).(*types.Basic); !ok {
				return Val{}, false
			}
			ts = append(ts, a.C...)
		}
	}
	name := "bf." + fn.Name()
	if fn.Name() == "SetPrec" {
		r.heapSet(st, "bigfloat.p", smt.Int, recv, args[1].one())
	}
	var vs []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		rt := res.At(i).Type()
		switch {
		case isPtr(rt, "Float"):
			r.heapSet(st, "bigfloat", smt.Int, recv, c.App(name, smt.Int, ts...))
			vs = append(vs, args[0])
		case isPtr(rt, "Int"):
			v := c.App(name, smt.Int, ts...)
			if z := args[1].one(); z.IsConst() {
				vs = append(vs, r.newBig(st, v))
			} else {
				return Val{}, false
			}
		default:
			if _, ok := under(rt).(*types.Basic); !ok {
				return Val{}, false
			}
			var v Val
			for k, lf := range r.flat(rt) {
				t := c.App(fmt.Sprintf("%s.%d.%d", name, i, k), lf.Sort, ts...)
				r.typeFacts(st, t, lf, nil)
				v.C = append(v.C, t)
			}
			if fn.Name() == "Cmp" || fn.Name() == "Sign" {
				r.bound(v.C[0], big.NewInt(-1), big.NewInt(1))
			}
			vs = append(vs, v)
		}
	}
	return packResults(vs, fn.Signature), true
}
