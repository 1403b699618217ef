package vc

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"govc/smt"
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func (r *Run) binop(st *State, op token.Token, a, b Val, ta, tb, tr types.Type, where string) Val {
	c := r.c
	one := func(t *T) Val { return Val{C: []*T{t}} }
	switch op {
	case token.EQL:
		return one(r.eq(st, a, b, ta, tb))
	case token.NEQ:
		return one(c.Not(r.eq(st, a, b, ta, tb)))
	}
	if bt, ok := under(ta).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		x, y := a.one(), b.one()
		switch op {
		case token.ADD:
			return one(r.strConcat(st, x, y))
		case token.LSS:
			return one(r.strLt(x, y))
		case token.GTR:
			return one(r.strLt(y, x))
		case token.LEQ:
			return one(c.Not(r.strLt(y, x)))
		case token.GEQ:
			return one(c.Not(r.strLt(x, y)))
		}
	}
	if isFloat(ta) {
		x, y := a.one(), b.one()
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			r.note("floating-point comparison uninterpreted")
			return one(c.Eq(c.App("fcmp."+op.String(), smt.Int, x, y), c.One))
		}
		r.note("floating-point arithmetic uninterpreted")
		return one(c.App("f"+op.String(), smt.Int, x, y))
	}
	if bt, ok := under(ta).(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return one(c.And(a.one(), b.one()))
		case token.OR, token.LOR:
			return one(c.Or(a.one(), b.one()))
		}
	}
	x, y := a.one(), b.one()
	switch op {
	case token.LSS:
		return one(c.Lt(x, y))
	case token.LEQ:
		return one(c.Le(x, y))
	case token.GTR:
		return one(c.Lt(y, x))
	case token.GEQ:
		return one(c.Le(y, x))
	case token.ADD:
		return one(r.wrap(c.Add(x, y), tr))
	case token.SUB:
		return one(r.wrap(c.Sub(x, y), tr))
	case token.MUL:
		return one(r.wrap(c.Mul(x, y), tr))
	case token.QUO:
		r.obligation(st, "safety", "div-by-zero", where, c.Not(c.Eq(y, c.Zero)))
		return one(r.wrap(r.quo(x, y), tr))
	case token.REM:
		r.obligation(st, "safety", "div-by-zero", where, c.Not(c.Eq(y, c.Zero)))
		return one(r.rem(x, y))
	case token.SHL:
		return one(r.shl(st, x, y, tr, where))
	case token.SHR:
		return one(r.shr(st, x, y, tr, where))
	case token.AND:
		return one(r.bitop("and", x, y, tr))
	case token.OR:
		return one(r.bitop("or", x, y, tr))
	case token.XOR:
		return one(r.bitop("xor", x, y, tr))
	case token.AND_NOT:
		return one(r.bitop("andnot", x, y, tr))
	}
	unsup("binop %s on %s", op, ta)
	return Val{}
}

// quo: Go truncated division.
// edm: Euclidean quotient and remainder of x by y, y >= 0 (a total function: by convention
// both are 0 when y is 0; Go never evaluates that case). Non-constant divisors become
// uninterpreted applications constrained by the division identity.
func (r *Run) edm(x, y *T) (q, m *T) {
	c := r.c
	if y.IsConst() && y.I.Sign() > 0 {
		return c.Div(x, y), c.Mod(x, y)
	}
	if x.IsConst() && x.I.Sign() == 0 {
		return c.Zero, c.Zero
	}
	q = c.App("ediv", smt.Int, x, y)
	m = c.App("emod", smt.Int, x, y)
	key := fmt.Sprintf("edm%d", q.ID)
	if r.axioms[key] && !q.Bound {
		return
	}
	r.axioms[key] = true
	xl, xh := c.Bounds(x)
	_, yh := c.Bounds(y)
	if yh != nil && yh.Sign() > 0 {
		r.bound(m, new(big.Int), new(big.Int).Sub(yh, big.NewInt(1)))
	} else {
		r.bound(m, new(big.Int), nil)
	}
	if xl != nil && xl.Sign() >= 0 {
		r.bound(q, new(big.Int), xh)
	}
	r.assumeAbs(c.Implies(c.Lt(c.Zero, y), c.And(c.Lt(m, y), c.Eq(c.Add(c.Mul(q, y), m), x))))
	r.assumeAbs(c.Implies(c.And(c.Lt(c.Zero, y), c.Le(c.Zero, x)), c.And(c.Le(c.Zero, q), c.Le(q, x))))
	r.assumeAbs(c.Implies(c.And(c.Le(c.Zero, x), c.Lt(x, y)), c.And(c.Eq(q, c.Zero), c.Eq(m, x))))
	r.assumeAbs(c.Implies(c.And(c.Lt(c.Zero, y), c.Le(y, x)), c.Le(c.One, q)))
	return
}

// quo: truncated quotient.
func (r *Run) quo(x, y *T) *T {
	c := r.c
	q, _ := r.edm(r.abs(x), r.abs(y))
	nx, ny := c.Lt(x, c.Zero), c.Lt(y, c.Zero)
	return c.Ite(c.Eq(nx, ny), q, c.Neg(q))
}

// rem: truncated remainder (sign of the dividend).
func (r *Run) rem(x, y *T) *T {
	c := r.c
	_, m := r.edm(r.abs(x), r.abs(y))
	return c.Ite(c.Lt(x, c.Zero), c.Neg(m), m)
}

func (r *Run) shl(st *State, x, y *T, tr types.Type, where string) *T {
	c := r.c
	bits, _ := intBits(under(tr).(*types.Basic))
	if y.IsConst() {
		if y.I.Sign() < 0 {
			unsup("negative shift")
		}
		if !y.I.IsInt64() || y.I.Int64() >= int64(bits) {
			return c.Zero
		}
		return r.wrap(c.MulC(x, pow2(uint(y.I.Int64()))), tr)
	}
	r.obligation(st, "safety", "shift-nonneg", where, c.Le(c.Zero, y))
	res := c.Zero
	for k := bits - 1; k >= 0; k-- {
		res = c.Ite(c.Eq(y, c.I64(int64(k))), r.wrap(c.MulC(x, pow2(uint(k))), tr), res)
	}
	return res
}

func (r *Run) shr(st *State, x, y *T, tr types.Type, where string) *T {
	c := r.c
	bits, _ := intBits(under(tr).(*types.Basic))
	over := c.Ite(c.Le(c.Zero, x), c.Zero, c.I64(-1))
	if y.IsConst() {
		if !y.I.IsInt64() || y.I.Int64() >= int64(bits) {
			return over
		}
		return c.Div(x, c.Big(pow2(uint(y.I.Int64()))))
	}
	r.obligation(st, "safety", "shift-nonneg", where, c.Le(c.Zero, y))
	res := over
	for k := bits - 1; k >= 0; k-- {
		res = c.Ite(c.Eq(y, c.I64(int64(k))), c.Div(x, c.Big(pow2(uint(k)))), res)
	}
	return res
}

// tz: the largest k such that 2^k divides t syntactically (capped).
func (r *Run) tz(t *T) uint {
	if t.IsConst() {
		if t.I.Sign() == 0 {
			return 512
		}
		return t.I.TrailingZeroBits()
	}
	if t.Op == "lin" {
		m := uint(512)
		if t.I.Sign() != 0 {
			m = t.I.TrailingZeroBits()
		}
		for i := range t.Args {
			k := t.Coef[i].TrailingZeroBits() + r.tz(t.Args[i])
			if k < m {
				m = k
			}
		}
		return m
	}
	if t.Op == "ite" {
		a, b := r.tz(t.Args[1]), r.tz(t.Args[2])
		if a < b {
			return a
		}
		return b
	}
	if t.Op == "mod" && t.Args[1].IsConst() {
		a, b := r.tz(t.Args[0]), r.tz(t.Args[1])
		if a < b {
			return a
		}
		return b
	}
	return 0
}

func (r *Run) bitop(op string, x, y *T, tr types.Type) *T {
	c := r.c
	bits, signed := intBits(under(tr).(*types.Basic))
	if x.IsConst() && y.IsConst() && x.I.Sign() >= 0 && y.I.Sign() >= 0 {
		z := new(big.Int)
		switch op {
		case "and":
			z.And(x.I, y.I)
		case "or":
			z.Or(x.I, y.I)
		case "xor":
			z.Xor(x.I, y.I)
		case "andnot":
			z.AndNot(x.I, y.I)
		}
		return c.Big(z)
	}
	xl, _ := c.Bounds(x)
	yl, _ := c.Bounds(y)
	if signed && (xl == nil || xl.Sign() < 0 || yl == nil || yl.Sign() < 0) {
		m := c.Big(pow2(uint(bits)))
		ux, uy := c.Mod(x, m), c.Mod(y, m)
		res := r.bitopU(op, ux, uy, uint(bits))
		return r.wrap(res, tr)
	}
	return r.bitopU(op, x, y, uint(bits))
}

func (r *Run) bitopU(op string, x, y *T, bits uint) *T {
	c := r.c
	and := func() *T { return r.bitand(x, y, bits) }
	switch op {
	case "and":
		return and()
	case "or":
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if xl, xh := c.Bounds(x); xl != nil && xl.Sign() >= 0 && xh != nil && xh.Cmp(pow2(bits)) < 0 {
				// x | m = m + (x & ^m)
				return c.Add(y, r.maskAnd(x, new(big.Int).Sub(new(big.Int).Sub(pow2(bits), big.NewInt(1)), y.I), bits))
			}
		}
		for k := 0; k < 2; k++ {
			if cond, a, b, ok := c.SplitIte(y); ok && y.Size < 300 && (a.IsConst() || b.IsConst()) {
				return c.Ite(cond, r.bitopU(op, x, a, bits), r.bitopU(op, x, b, bits))
			}
			x, y = y, x
		}
		return c.Sub(c.Add(x, y), and())
	case "xor":
		if x == y {
			return c.Zero
		}
		a := and()
		return c.Sub(c.Add(x, y), c.Add(a, a))
	case "andnot":
		return c.Sub(x, and())
	}
	panic(op)
}

func (r *Run) bitand(x, y *T, bits uint) *T {
	c := r.c
	if x == y {
		return x
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() {
		return r.maskAnd(x, y.I, bits)
	}
	// disjoint bits
	_, xh := c.Bounds(x)
	_, yh := c.Bounds(y)
	if xh != nil && xh.Cmp(pow2(r.tz(y))) < 0 && r.tz(y) < 512 {
		return c.Zero
	}
	if yh != nil && yh.Cmp(pow2(r.tz(x))) < 0 && r.tz(x) < 512 {
		return c.Zero
	}
	if x.Op == "ite" && x.Args[1].IsConst() && x.Args[2].IsConst() {
		return c.Ite(x.Args[0], r.bitand(y, x.Args[1], bits), r.bitand(y, x.Args[2], bits))
	}
	if y.Op == "ite" && (y.Args[1].IsConst() || y.Args[2].IsConst()) && y.Size < 2000 {
		return c.Ite(y.Args[0], r.bitand(x, y.Args[1], bits), r.bitand(x, y.Args[2], bits))
	}
	for k := 0; k < 2; k++ {
		if y.Op == "lin" && y.Size < 500 {
			if cond, a, b, ok := c.SplitIte(y); ok && (a.IsConst() || b.IsConst()) {
				return c.Ite(cond, r.bitand(x, a, bits), r.bitand(x, b, bits))
			}
		}
		x, y = y, x
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	w := bits
	// narrow width by bounds
	if xh != nil && yh != nil {
		n := uint(xh.BitLen())
		if uint(yh.BitLen()) > n {
			n = uint(yh.BitLen())
		}
		if n > 0 && n < w {
			w = n
		}
	}
	conv := fmt.Sprintf("(_ int2bv %d)", w)
	bs := fmt.Sprintf("(_ BitVec %d)", w)
	t := c.Builtin("bv2nat", smt.Int, c.Builtin("bvand", bs, c.Builtin(conv, bs, x), c.Builtin(conv, bs, y)))
	if !t.Bound {
		key := fmt.Sprintf("bvand%d", t.ID)
		if !r.axioms[key] {
			r.axioms[key] = true
			r.assumeAbs(c.And(c.Le(c.Zero, t), c.Le(t, x), c.Le(t, y)))
			c.SetBounds(t, new(big.Int), new(big.Int).Sub(pow2(w), big.NewInt(1)))
		}
	}
	return t
}

// maskAnd: x & m for constant m, as a sum over maximal runs of ones.
func (r *Run) maskAnd(x *T, m *big.Int, bits uint) *T {
	c := r.c
	res := c.Zero
	i := uint(0)
	for i < uint(m.BitLen()) {
		if m.Bit(int(i)) == 0 {
			i++
			continue
		}
		j := i
		for m.Bit(int(j)) == 1 {
			j++
		}
		// bits [i,j)
		part := c.Div(x, c.Big(pow2(i)))
		if j < bits {
			part = c.Mod(part, c.Big(pow2(j-i)))
		}
		res = c.Add(res, c.MulC(part, pow2(i)))
		i = j
	}
	return res
}

// eq: Go equality.
func (r *Run) eq(st *State, a, b Val, ta, tb types.Type) *T {
	c := r.c
	_, ia := under(ta).(*types.Interface)
	_, ib := under(tb).(*types.Interface)
	if ia && !ib {
		b = r.mkIface(b, tb)
		tb = ta
	} else if ib && !ia {
		a = r.mkIface(a, ta)
		ta = tb
	}
	if a.Loc != nil || b.Loc != nil {
		if a.Loc != nil && b.Loc != nil {
			if a.Loc.Key != b.Loc.Key {
				return c.False
			}
			e := c.Eq(a.Loc.Ref, b.Loc.Ref)
			if a.Loc.Idx != nil {
				e = c.And(e, c.Eq(a.Loc.Idx, b.Loc.Idx))
			}
			return e
		}
		// interior pointer against something else: never nil
		return c.False
	}
	switch u := under(ta).(type) {
	case *types.Slice: // only against nil
		return c.And(c.Eq(a.C[0], c.Zero), c.Eq(b.C[0], c.Zero), c.Eq(a.C[2], b.C[2]))
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return r.strEq(a.one(), b.one())
		}
	case *types.Interface:
		return c.And(c.Eq(a.C[0], b.C[0]), c.Eq(a.C[1], b.C[1]))
	}
	return r.leafEq(a.C, b.C, r.flat(ta))
}

func (r *Run) leafEq(a, b []*T, lfs []Leaf) *T {
	c := r.c
	var es []*T
	for i := range a {
		e := c.Eq(a[i], b[i])
		if lfs[i].Role == RArr && !e.IsTrue() && !e.IsFalse() {
			e = r.arrEq(a[i], b[i], lfs[i])
		}
		if lfs[i].Role == RStr {
			e = r.strEq(a[i], b[i])
		}
		es = append(es, e)
	}
	return c.And(es...)
}

// arrEq: arrays are canonical (zero outside their length), so Go equality is SMT
// equality; the finite extensionality instance is provided.
func (r *Run) arrEq(a, b *T, lf Leaf) *T {
	c := r.c
	e := c.Eq(a, b)
	key := fmt.Sprintf("arreq%d,%d", a.ID, b.ID)
	if r.axioms[key] || a.Bound || b.Bound {
		return e
	}
	r.axioms[key] = true
	if lf.N <= 64 {
		var es []*T
		for i := int64(0); i < lf.N; i++ {
			x, y := c.Select(a, c.I64(i)), c.Select(b, c.I64(i))
			es = append(es, c.Eq(x, y))
		}
		r.assumeAbs(c.Implies(c.And(es...), e))
	}
	return e
}

func (r *Run) strConcat(st *State, x, y *T) *T {
	c := r.c
	if x == c.Zero {
		return y
	}
	if y == c.Zero {
		return x
	}
	if x.IsConst() && y.IsConst() {
		return r.strID(r.strVals[x.I.Int64()-1] + r.strVals[y.I.Int64()-1])
	}
	t := c.App("strcat", smt.Int, x, y)
	key := fmt.Sprintf("strcat%d", t.ID)
	if !r.axioms[key] {
		r.axioms[key] = true
		r.bound(t, new(big.Int), nil)
		lx, ly := r.strlen(st, x), r.strlen(st, y)
		lt := r.strlen(st, t)
		r.assumeAbs(c.Eq(lt, c.Add(lx, ly)))
		v := c.BoundVar("i", smt.Int)
		at := c.App("strat", smt.Int, t, v)
		r.assumeAbs(c.Forall([]*T{v}, c.Implies(c.And(c.Le(c.Zero, v), c.Lt(v, c.Add(lx, ly))),
			c.Eq(at, c.Ite(c.Lt(v, lx), c.App("strat", smt.Int, x, v), c.App("strat", smt.Int, y, c.Sub(v, lx))))), []*T{at}))
	}
	return t
}

// strLt: strings are ordered by an uninterpreted rank; equal ranks are equal contents. Finitely many strings embed
// in the integers in their lexicographic order.
func (r *Run) strLt(x, y *T) *T {
	c := r.c
	rx, ry := c.App("strrank", smt.Int, x), c.App("strrank", smt.Int, y)
	if x != y && !x.Bound && !y.Bound {
		eq := r.strEq(x, y)
		r.assumeAbs(c.Eq(c.Eq(rx, ry), eq))
	}
	return c.Lt(rx, ry)
}
