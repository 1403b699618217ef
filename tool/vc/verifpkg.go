package vc

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"

	"govc/smt"
)

func (r *Run) constStr(v Val) string {
	t := v.one()
	if t.IsConst() && t.I.Sign() > 0 {
		return r.strVals[t.I.Int64()-1]
	}
	return "?"
}

func init() {
	P := verifPath + "."
	V := verifFns
	V[P+"Requires"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		if r.useCtx != nil && fr.fn == r.useCtx.ct.Harness {
			r.obligation(st, "requires", r.useCtx.ct.Name+" precondition", w, a[0].one())
		} else {
			r.assume(st, a[0].one())
			if r.absPC(st).IsTrue() {
				r.c.Learn(a[0].one())
			}
		}
		return Val{}
	}
	V[P+"Ensures"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		if r.useCtx != nil && fr.fn == r.useCtx.ct.Harness {
			r.assume(st, a[1].one())
		} else {
			r.obligation(st, "ensures", r.constStr(a[0]), w, a[1].one())
		}
		return Val{}
	}
	V[P+"Split"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		if r.useCtx != nil {
			return Val{}
		}
		if !a[1].one().IsConst() || !a[2].one().IsConst() {
			unsup("Split with non-constant range")
		}
		r.splits = append(r.splits, split{a[0].one(), a[1].one().I.Int64(), a[2].one().I.Int64()})
		return Val{}
	}
	V[P+"Assert"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		if r.useCtx == nil {
			r.obligation(st, "ensures", r.constStr(a[0]), w, a[1].one())
		}
		return Val{}
	}
	V[P+"Invariant"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		if r.invMode == "assume" {
			r.assume(st, a[1].one())
		} else {
			r.obligation(st, "invariant", r.constStr(a[0])+" ("+r.invMode+")", w, a[1].one())
		}
		return Val{}
	}
	V[P+"ModifiesNothing"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		if r.useCtx == nil {
			r.modsSet = true
		}
		return Val{}
	}
	V[P+"Modifies"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		s := a[0]
		n := s.C[2]
		if !n.IsConst() {
			unsup("Modifies with non-constant arguments")
		}
		et := types.NewInterfaceType(nil, nil)
		for i := int64(0); i < n.I.Int64(); i++ {
			iv := r.loadElem(st, s, r.c.I64(i), et)
			if !iv.C[0].IsConst() {
				unsup("Modifies of dynamic type")
			}
			t := r.tagType[iv.C[0].I.Int64()-1]
			v := r.unbox(st, iv.C[1], t)
			if r.useCtx != nil {
				r.useCtx.mods = append(r.useCtx.mods, modItem{v, t})
				continue
			}
			r.modsSet = true
			r.mods = append(r.mods, v.C[0])
			if pt, ok := under(t).(*types.Pointer); ok {
				r.addInterior(v.C[0], pt.Elem())
			}
		}
		return Val{}
	}
	V[P+"Disjoint"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		s := a[0]
		n := s.C[2]
		if !n.IsConst() {
			unsup("Disjoint with non-constant arguments")
		}
		c := r.c
		et := types.NewInterfaceType(nil, nil)
		var refs []*T
		for i := int64(0); i < n.I.Int64(); i++ {
			iv := r.loadElem(st, s, c.I64(i), et)
			if !iv.C[0].IsConst() {
				unsup("Disjoint of dynamic type")
			}
			refs = append(refs, r.unbox(st, iv.C[1], r.tagType[iv.C[0].I.Int64()-1]).C[0])
		}
		var cs []*T
		for i := range refs {
			for j := 0; j < i; j++ {
				cs = append(cs, c.Or(c.Eq(refs[i], c.Zero), c.Not(c.Eq(refs[i], refs[j]))))
			}
		}
		return v1(c.And(cs...))
	}
	V[P+"Kept"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		s := a[0]
		n := s.C[2]
		if !n.IsConst() || r.invPre == nil {
			unsup("Kept outside a loop invariant")
		}
		c := r.c
		et := types.NewInterfaceType(nil, nil)
		var cs []*T
		for i := int64(0); i < n.I.Int64(); i++ {
			iv := r.loadElem(st, s, c.I64(i), et)
			if !iv.C[0].IsConst() {
				unsup("Kept of dynamic type")
			}
			t := r.tagType[iv.C[0].I.Int64()-1]
			v := r.unbox(st, iv.C[1], t)
			switch u := under(t).(type) {
			case *types.Slice:
				if isStruct(u.Elem()) || isArray(u.Elem()) || isBig(u.Elem()) {
					unsup("Kept of a slice of aggregates")
				}
				for k, lf := range r.flat(u.Elem()) {
					key := fmt.Sprintf("%s#%d", elemKey(u.Elem()), k)
					rs := smt.ArrSort(smt.Int, lf.Sort)
					cs = append(cs, c.Eq(c.Select(r.heap(st, key, rs), v.C[0]), c.Select(r.heap(r.invPre, key, rs), v.C[0])))
				}
			case *types.Pointer:
				x, y := r.loadRef(st, v.one(), u.Elem()), r.loadRef(r.invPre, v.one(), u.Elem())
				for k := range x.C {
					cs = append(cs, c.Eq(x.C[k], y.C[k]))
				}
			case *types.Map:
				kk, ks, vl := mapSorts(r, u)
				eq := func(key, srt string) {
					cs = append(cs, c.Eq(c.Select(r.heap(st, key, srt), v.one()), c.Select(r.heap(r.invPre, key, srt), v.one())))
				}
				eq(kk+"#dom", smt.ArrSort(ks, smt.Bool))
				for k, lf := range vl {
					eq(fmt.Sprintf("%s#%d", kk, k), smt.ArrSort(ks, lf.Sort))
				}
				eq(kk+"#len", smt.Int)
			default:
				unsup("Kept of %s", t)
			}
		}
		return v1(c.And(cs...))
	}
	V[P+"Owned"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		s := a[0]
		n := s.C[2]
		if !n.IsConst() {
			unsup("Owned with non-constant arguments")
		}
		var cs []*T
		for i := int64(0); i < n.I.Int64(); i++ {
			cs = append(cs, r.owned(r.loadElem(st, s, r.c.I64(i), fn.Signature.Params().At(0).Type().(*types.Slice).Elem()).C[0]))
		}
		return v1(r.c.And(cs...))
	}
	V[P+"Forall"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.quantify(fr, st, a, w, false))
	}
	V[P+"Exists"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.c.Not(r.quantify(fr, st, a, w, true)))
	}
	V[P+"U"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val { return a[0] }
	V[P+"I"] = V[P+"U"]
	V[P+"N"] = V[P+"U"]
	V[P+"B"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		// snapshot; nil counts as 0
		c := r.c
		v := r.bigVal(st, a[0].one())
		return v1(c.Ite(c.Eq(a[0].one(), c.Zero), c.Zero, v))
	}
	V[P+"Pow2"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		n := a[0].one()
		if n.IsConst() {
			return v1(r.c.Big(pow2(uint(n.I.Int64()))))
		}
		return v1(r.pow2t(n))
	}
	V[P+"Dec"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		v, ok := new(big.Int).SetString(r.constStr(a[0]), 10)
		if !ok {
			unsup("Dec of non-literal")
		}
		return v1(r.c.Big(v))
	}
	V[P+"If"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.c.Ite(a[0].one(), a[1].one(), a[2].one()))
	}
	Z := "(" + P + "Z)."
	zb := func(f func(r *Run, x, y *T) *T) intrinsic {
		return func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
			return v1(f(r, a[0].one(), a[1].one()))
		}
	}
	V[Z+"Add"] = zb(func(r *Run, x, y *T) *T { return r.c.Add(x, y) })
	V[Z+"Sub"] = zb(func(r *Run, x, y *T) *T { return r.c.Sub(x, y) })
	V[Z+"Mul"] = zb(func(r *Run, x, y *T) *T { return r.c.Mul(x, y) })
	V[Z+"Div"] = zb(func(r *Run, x, y *T) *T { return r.eucDiv(x, y) })
	V[Z+"Quo"] = zb(func(r *Run, x, y *T) *T { return r.quo(x, y) })
	V[Z+"Rem"] = zb(func(r *Run, x, y *T) *T { return r.rem(x, y) })
	V[Z+"Mod"] = zb(func(r *Run, x, y *T) *T { return r.eucMod(x, y) })
	V[Z+"Lt"] = zb(func(r *Run, x, y *T) *T { return r.c.Lt(x, y) })
	V[Z+"Le"] = zb(func(r *Run, x, y *T) *T { return r.c.Le(x, y) })
	V[Z+"Gt"] = zb(func(r *Run, x, y *T) *T { return r.c.Lt(y, x) })
	V[Z+"Ge"] = zb(func(r *Run, x, y *T) *T { return r.c.Le(y, x) })
	V[Z+"Eq"] = zb(func(r *Run, x, y *T) *T { return r.c.Eq(x, y) })
	V[Z+"Low"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.c.Mod(a[0].one(), r.c.Big(pow2(64))))
	}
	V[Z+"Min"] = zb(func(r *Run, x, y *T) *T { return r.c.Ite(r.c.Le(x, y), x, y) })
	V[Z+"Max"] = zb(func(r *Run, x, y *T) *T { return r.c.Ite(r.c.Le(x, y), y, x) })
	V[Z+"And"] = zb(func(r *Run, x, y *T) *T { return r.bigBit("and", x, y) })
	V[Z+"Or"] = zb(func(r *Run, x, y *T) *T { return r.bigBit("or", x, y) })
	V[Z+"Xor"] = zb(func(r *Run, x, y *T) *T { return r.bigBit("xor", x, y) })
	V[Z+"Neg"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.c.Neg(a[0].one()))
	}
	V[Z+"Exp"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.c.App("bigexp", smt.Int, a[0].one(), a[1].one(), a[2].one()))
	}
	V[P+"ByteLen"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.nbytes(a[0].one()))
	}
	// byte sequences
	V[P+"Bytes"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		s := a[0]
		return Val{C: []*T{r.byteRow(st, s), s.C[1], s.C[2]}}
	}
	S := "(" + P + "Seq)."
	V[S+"Len"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val { return v1(a[0].C[2]) }
	V[S+"At"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		b := r.c.Select(a[0].C[0], r.c.Add(a[0].C[1], a[1].one()))
		if b.Op == "select" || b.Op == "app" {
			r.bound(b, new(big.Int), big.NewInt(255))
		}
		return v1(b)
	}
	V[S+"Eq"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.seqEq(a[0].C[0], a[0].C[1], a[0].C[2], a[1].C[0], a[1].C[1], a[1].C[2]))
	}
	V[S+"Sub"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		lo, hi := a[1].one(), a[2].one()
		return Val{C: []*T{a[0].C[0], r.c.Add(a[0].C[1], lo), r.c.Sub(hi, lo)}}
	}
	V[S+"BE"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.bval(a[0].C[0], a[0].C[1], a[0].C[2]))
	}
	V[P+"SameError"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		return v1(r.c.And(r.c.Eq(a[0].C[0], a[1].C[0]), r.c.Eq(a[0].C[1], a[1].C[1])))
	}
}

// addInterior adds embedded aggregates of a modifiable object.
func (r *Run) addInterior(ref *T, t types.Type) {
	u, ok := under(t).(*types.Struct)
	if !ok || !isStruct(t) {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if isStruct(f.Type()) || isArray(f.Type()) || isBig(f.Type()) {
			s := r.sub(ref, t, i, f.Name())
			r.mods = append(r.mods, s)
			r.addInterior(s, f.Type())
		}
	}
}

// quantify: forall i in [lo,hi): body(i) (negated body when neg).
func (r *Run) quantify(fr *Frame, st *State, a []Val, w string, neg bool) *T {
	c := r.c
	lo, hi := a[0].one(), a[1].one()
	cl := r.closureOf(a[2])
	if cl == nil {
		unsup("quantifier over unknown function")
	}
	eval := func(i *T) *T {
		s := &State{pc: st.pc, env: st.env, heaps: cloneHeaps(st.heaps)}
		r.quant++
		r.E.build(cl.Fn)
		vs := r.callFn(s, cl.Fn, []Val{v1(i)}, cl.Bind, w)
		r.quant--
		b := vs[0].one()
		if neg {
			b = c.Not(b)
		}
		return b
	}
	// small constant ranges are expanded
	d := c.Sub(hi, lo)
	if d.IsConst() && d.I.IsInt64() && d.I.Int64() <= 64 {
		var es []*T
		for k := int64(0); k < d.I.Int64(); k++ {
			es = append(es, eval(c.Add(lo, c.I64(k))))
		}
		return c.And(es...)
	}
	x := c.BoundVar("q", smt.Int)
	// the guard is built before the variable gets its bounds: the body may be simplified under the
	// guard, the guard itself may not
	rng := c.And(c.Le(lo, x), c.Lt(x, hi))
	xl, _ := c.Bounds(lo)
	_, xh := c.Bounds(hi)
	if xh != nil {
		xh = new(big.Int).Sub(xh, big.NewInt(1))
	}
	ranged := xl != nil && xh != nil && xl.Cmp(xh) <= 0
	if ranged {
		c.SetBounds(x, xl, xh)
		c.ForgetBounds()
	}
	r.qfacts = append(r.qfacts, nil)
	before := r.specBound
	b := eval(x)
	n := len(r.qfacts) - 1
	facts := r.qfacts[n]
	r.qfacts = r.qfacts[:n]
	body := c.Implies(c.And(append([]*T{rng}, facts...)...), b)
	all := c.Forall([]*T{x}, body)
	if all.Op == "forall" && len(facts) > 0 {
		// what the body reads is well typed
		if r.qtyped == nil {
			r.qtyped = map[int]*T{}
		}
		r.qtyped[all.ID] = c.Implies(rng, c.And(facts...))
	}
	if r.specBound > before && !lo.Bound && !hi.Bound && r.quant == 0 {
		// name a counterexample of the quantified formula, should it have one, so that the
		// specification functions are unfolded for it (a conservative extension: w := epsilon x. not body)
		k := c.Sym("wit", smt.Int)
		if ranged {
			r.bound(k, xl, xh)
		}
		in := c.And(c.Le(lo, k), c.Lt(k, hi))
		r.assumeAbs(c.Or(all, c.And(in, c.Not(eval(k)))))
		if all.Op == "forall" {
			if r.wit == nil {
				r.wit = map[int]*T{}
			}
			r.wit[all.ID] = k
		}
	}
	return all
}

// ---- loop invariants

func (r *Run) checkInv(fr *Frame, lp *loop, inv *Invariant, st, pre *State, what string) {
	r.checkOrAssumeInv(fr, lp, inv, st, pre, true, what)
}

func (r *Run) checkOrAssumeInv(fr *Frame, lp *loop, inv *Invariant, st, pre *State, check bool, what string) {
	saved := r.invMode
	if check {
		r.invMode = what
	} else {
		r.invMode = "assume"
	}
	savedPre := r.invPre
	r.invPre = pre
	defer func() { r.invMode = saved; r.invPre = savedPre }()
	var args []Val
	for _, p := range inv.Fn.Params {
		v, ok := r.bindName(fr, lp, st, pre, p.Name(), p.Type())
		if !ok {
			panic(invBind{fmt.Sprintf("invariant %s: no variable %q of type %s in %s", inv.Name, p.Name(), p.Type(), fr.fn)})
		}
		args = append(args, v)
	}
	s := &State{pc: st.pc, env: map[ssa.Value]Val{}, heaps: cloneHeaps(st.heaps)}
	savedT := r.inTarget
	r.inTarget = false
	r.callFn(s, inv.Fn, args, nil, inv.Name)
	r.inTarget = savedT
}

type invBind struct{ msg string }

// bindName finds the value of a source variable at the loop header.
func (r *Run) bindName(fr *Frame, lp *loop, st, pre *State, name string, t types.Type) (Val, bool) {
	src := st
	if len(name) > 4 && name[:4] == "pre_" {
		name = name[4:]
		src = pre
	}
	for _, p := range headerPhis(lp.header) {
		if p.Comment == name && types.Identical(p.Type(), t) {
			return r.val(src, p), true
		}
	}
	// range index phi
	if name == "rangeindex" {
		for _, p := range headerPhis(lp.header) {
			if p.Comment == "rangeindex" {
				return r.val(src, p), true
			}
		}
	}
	if v, ok := r.lookupVar(fr.fn, src, name, t, lp.header); ok {
		return v, true
	}
	// enclosing frames (ghost values of the harness)
	for i := len(r.stack) - 1; i > 0; i-- {
		f := r.stack[i]
		caller := r.stack[i-1]
		cs := &State{pc: r.c.True, env: f.callerEnv, heaps: st.heaps}
		if v, ok := r.lookupVar(caller.fn, cs, name, t, nil); ok {
			return v, true
		}
	}
	return Val{}, false
}

func (r *Run) lookupVar(fn *ssa.Function, st *State, name string, t types.Type, at *ssa.BasicBlock) (Val, bool) {
	for _, p := range fn.Params {
		if p.Name() == name && types.Identical(p.Type(), t) {
			if v, ok := st.env[p]; ok {
				return v, true
			}
		}
	}
	for _, p := range fn.FreeVars {
		if p.Name() == name {
			if v, ok := st.env[p]; ok {
				if pt, ok := under(p.Type()).(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
					return r.load(st, v, pt.Elem()), true
				}
				return v, true
			}
		}
	}
	var best ssa.Value
	isAddr := false
	for _, b := range fn.Blocks {
		if at != nil && !(b.Dominates(at)) {
			continue
		}
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok {
				id, ok := d.Expr.(*ast.Ident)
				if !ok || id.Name != name {
					continue
				}
				vt := d.X.Type()
				if d.IsAddr {
					if pt, ok := under(vt).(*types.Pointer); ok {
						vt = pt.Elem()
					}
				}
				if !types.Identical(vt, t) {
					continue
				}
				if _, isC := d.X.(*ssa.Const); !isC {
					if _, ok := st.env[d.X]; !ok {
						continue
					}
				}
				best = d.X
				isAddr = d.IsAddr
			}
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
				if pt, ok := under(a.Type()).(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
					if _, ok := st.env[a]; ok {
						best = a
						isAddr = true
					}
				}
			}
			if p, ok := in.(*ssa.Phi); ok && p.Comment == name && types.Identical(p.Type(), t) {
				if _, ok := st.env[p]; ok {
					best = p
					isAddr = false
				}
			}
		}
	}
	if best == nil {
		return Val{}, false
	}
	v := r.val(st, best)
	if isAddr {
		return r.load(st, v, t), true
	}
	return v, true
}
