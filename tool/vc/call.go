package vc

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"govc/smt"
)

const verifPath = "github.com/vitelabs/go-vite/v2/zzverif"

func (r *Run) call(fr *Frame, st *State, cc *ssa.CallCommon, instr *ssa.Call, where string) Val {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return r.builtin(fr, st, b, cc, instr, where)
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, r.val(st, a))
	}
	if cc.IsInvoke() {
		return r.invoke(fr, st, cc, r.val(st, cc.Value), args, where, instr)
	}
	if fn := cc.StaticCallee(); fn != nil {
		var binds []Val
		if _, ok := cc.Value.(*ssa.MakeClosure); ok {
			if cl := r.closureOf(r.val(st, cc.Value)); cl != nil {
				binds = cl.Bind
			}
		}
		return r.callStatic(fr, st, fn, args, binds, where, instr)
	}
	return r.callDyn(fr, st, r.val(st, cc.Value), args, cc.Signature(), where)
}

func packResults(vs []Val, sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return Val{}
	case 1:
		return vs[0]
	}
	return Val{Parts: vs}
}

func (r *Run) callDyn(fr *Frame, st *State, fv Val, args []Val, sig *types.Signature, where string) Val {
	leaves, all := constLeaves(fv.one())
	if !all {
		unsup("call of unknown function value at %s", where)
	}
	return r.dispatch(st, len(leaves), func(i int) *T { return r.c.Eq(fv.one(), leaves[i]) }, func(i int, s *State) Val {
		if leaves[i].I.Sign() == 0 {
			r.obligation(s, "safety", "nil-func-call", where, r.c.False)
			s.dead = true
			return r.zeroRes(sig)
		}
		cl := r.closureOf(Val{C: []*T{leaves[i]}})
		return r.callStatic(fr, s, cl.Fn, args, cl.Bind, where, nil)
	})
}

func (r *Run) zeroRes(sig *types.Signature) Val {
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, r.zero(sig.Results().At(i).Type()))
	}
	return packResults(vs, sig)
}

// constLeaves lists the constants of an ite tree; ok: it has no other leaves.
func constLeaves(t *T) (out []*T, ok bool) {
	seen := map[int]bool{}
	ok = true
	var f func(t *T)
	f = func(t *T) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.IsConst() {
			out = append(out, t)
		} else if t.Op == "ite" {
			f(t.Args[1])
			f(t.Args[2])
		} else {
			ok = false
		}
	}
	f(t)
	return out, ok
}

func badLeaf(t *T) *T {
	seen := map[int]bool{}
	var f func(t *T) *T
	f = func(t *T) *T {
		if t.IsConst() || seen[t.ID] {
			return nil
		}
		seen[t.ID] = true
		if t.Op != "ite" {
			return t
		}
		if b := f(t.Args[1]); b != nil {
			return b
		}
		return f(t.Args[2])
	}
	return f(t)
}

// dispatch executes alternatives under exclusive conditions and merges.
func (r *Run) dispatch(st *State, n int, cond func(int) *T, run func(int, *State) Val) Val {
	if n == 1 {
		return run(0, st)
	}
	type br struct {
		c  *T
		st *State
		v  Val
	}
	var brs []br
	for i := 0; i < n; i++ {
		c := cond(i)
		s := st.fork(c, r.c)
		if r.absPC(s).IsFalse() {
			continue
		}
		v := run(i, s)
		if s.dead || s.pc.IsFalse() {
			continue
		}
		brs = append(brs, br{c, s, v})
	}
	if len(brs) == 0 {
		st.dead = true
		st.pc = r.c.False
		return Val{}
	}
	last := brs[len(brs)-1]
	v, heaps := last.v, last.st.heaps
	for i := len(brs) - 2; i >= 0; i-- {
		m, ok := mergeVals(r.c, brs[i].c, brs[i].v, v)
		if !ok {
			unsup("dispatch merge")
		}
		v = m
		heaps = r.mergeHeaps(brs[i].c, brs[i].st.heaps, heaps)
	}
	st.heaps = heaps
	return v
}

// prove asks the fast solver whether goal holds here.
func (r *Run) prove(st *State, goal *T) bool {
	if goal.IsTrue() {
		return true
	}
	pc := r.absPC(st)
	if r.c.Implies(pc, goal).IsTrue() {
		return true
	}
	o := &Obl{Kind: "side", Name: "side", PC: pc, Goal: goal, NFact: len(r.facts), Run: r}
	return smt.Check(o.Script(), []string{"z3new"}, 3*time.Second).Status == "unsat"
}

// concretize replaces an interface value merged from many paths by the one dynamic value it
// provably has here.
func (r *Run) concretize(st *State, cc *ssa.CallCommon, recv Val) Val {
	if cc.Method.Name() == "Error" || cc.Method.Name() == "String" {
		return recv
	}
	k := r.concreteIface(st, cc.Value.Type(), recv)
	if k.C[0] == recv.C[0] {
		return recv
	}
	if _, ok := st.env[cc.Value]; ok {
		st.env[cc.Value] = k
	}
	return k
}

func (r *Run) concreteIface(st *State, t types.Type, recv Val) Val {
	tag, ref := recv.C[0], recv.C[1]
	key := tkey(t)
	if tag.IsConst() && ref.IsConst() {
		if r.ifaces == nil {
			r.ifaces = map[string]Val{}
			r.ifaceNo = map[int]bool{}
		}
		r.ifaces[key] = recv
		return recv
	}
	if tag.IsConst() || r.mute > 0 || r.quant > 0 || r.ifaceNo[tag.ID] || isErrIface(t) {
		return recv
	}
	var cands []string
	if _, ok := r.ifaces[key]; ok {
		cands = append(cands, key)
	}
	for o := range r.ifaces {
		if o != key {
			cands = append(cands, o)
		}
	}
	if len(cands) > 1 {
		sort.Strings(cands[1:])
	}
	tried := map[[2]int]bool{}
	for _, o := range cands {
		k := r.ifaces[o]
		id := k.C[0].I.Int64()
		if id == 0 || id > int64(len(r.tagType)) || tried[[2]int{k.C[0].ID, k.C[1].ID}] {
			continue
		}
		if it, isIf := under(t).(*types.Interface); !isIf || !types.Implements(r.tagType[id-1], it) {
			continue
		}
		tried[[2]int{k.C[0].ID, k.C[1].ID}] = true
		if r.prove(st, r.c.And(r.c.Eq(tag, k.C[0]), r.c.Eq(ref, k.C[1]))) {
			r.ifaces[key] = k
			return k
		}
	}
	if r.ifaceNo == nil {
		r.ifaceNo = map[int]bool{}
	}
	r.ifaceNo[tag.ID] = true
	return recv
}

func isErrIface(t types.Type) bool {
	it, ok := under(t).(*types.Interface)
	return !ok || it.NumMethods() == 0 || it.NumMethods() == 1 && it.Method(0).Name() == "Error"
}

func (r *Run) invoke(fr *Frame, st *State, cc *ssa.CallCommon, recv Val, args []Val, where string, instr *ssa.Call) Val {
	it := cc.Value.Type()
	name := cc.Method.Name()
	if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Pkg() != nil {
		pp := n.Obj().Pkg().Path()
		if strings.Contains(pp, "log15") || strings.HasSuffix(pp, "/log15") {
			r.Trusted["logging ("+pp+") has no visible effect"] = true
			return r.havocRes(st, cc.Signature(), "log")
		}
	}
	recv = r.concretize(st, cc, recv)
	tag := recv.C[0]
	leaves, all := constLeaves(tag)
	if !all {
		some := false
		for _, l := range leaves {
			some = some || l.I.Sign() != 0
		}
		if some && name != "Error" && name != "String" {
			// alternatives of unknown type remain (memory that only another path
			// initialises): prove that they are not taken here
			var alts []*T
			for _, l := range leaves {
				alts = append(alts, r.c.Eq(tag, l))
			}
			r.obligation(st, "safety", "dispatch:"+name, where, r.c.Or(alts...))
			all = true
		}
	}
	if !all {
		if name == "Error" || name == "String" {
			t := r.c.App("errstr", smt.Int, recv.C[0], recv.C[1])
			r.bound(t, new(big.Int), nil)
			return Val{C: []*T{t}}
		}
		unsup("dynamic dispatch of %s.%s at %s (tag %s)", it, name, where, badLeaf(tag))
	}
	var cands []*T
	for _, l := range leaves {
		cands = append(cands, l)
	}
	return r.dispatch(st, len(cands), func(i int) *T { return r.c.Eq(tag, cands[i]) }, func(i int, s *State) Val {
		l := cands[i]
		if l.I.Sign() == 0 {
			r.obligation(s, "safety", "nil-interface-call:"+name, where, r.c.False)
			s.dead = true
			return r.zeroRes(cc.Signature())
		}
		if l.I.Int64() > int64(len(r.tagType)) {
			t := r.c.App("errstr", smt.Int, recv.C[0], recv.C[1])
			r.bound(t, new(big.Int), nil)
			return v1(t)
		}
		ct := r.tagType[l.I.Int64()-1]
		sel := r.E.Prog.MethodSets.MethodSet(ct).Lookup(cc.Method.Pkg(), name)
		if sel == nil {
			unsup("no method %s on %s", name, ct)
		}
		fn := r.E.Prog.MethodValue(sel)
		if fn == nil {
			unsup("no method value %s on %s", name, ct)
		}
		rv := r.unbox(s, recv.C[1], ct)
		return r.callStatic(fr, s, fn, append([]Val{rv}, args...), nil, where, instr)
	})
}

func (r *Run) havocRes(st *State, sig *types.Signature, hint string) Val {
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, r.havoc(st, sig.Results().At(i).Type(), hint))
	}
	return packResults(vs, sig)
}

type useCtx struct {
	ct     *Contract
	called bool
	args   []Val
	mods   []modItem
}

type modItem struct {
	v Val
	t types.Type
}

func (r *Run) callStatic(fr *Frame, st *State, fn *ssa.Function, args []Val, binds []Val, where string, instr *ssa.Call) Val {
	if fn.Origin() != nil && fn.Origin() != fn {
		// instantiated generic: body built from instance
	}
	name := fn.String()
	if h, ok := verifFns[name]; ok {
		return h(r, fr, st, fn, args, where)
	}
	if r.ct != nil {
		if to := r.ct.Replace[fn]; to != nil {
			r.Trusted["assumed contract on "+shortName(fn)+" ("+pkgOf(fn)+"): "+to.Name()] = true
			return packResults(r.callFn(st, to, args, nil, where), fn.Signature)
		}
	}
	if r.E.specFns[fn] && r.specDepth == 0 {
		return r.specCall(fr, st, fn, args, where)
	}
	// inside a contract harness in use mode, the target call is abstracted
	if r.useCtx != nil && fr != nil && fn == r.useCtx.ct.Target && fr.fn == r.useCtx.ct.Harness {
		return r.abstractCall(st, fn, args, where)
	}
	if name == "sort.Slice" || name == "sort.SliceStable" {
		r.sortSlice(fr, st, args, where)
		return Val{}
	}
	if in, ok := intrinsics[name]; ok {
		return in(r, fr, st, fn, args, where)
	}
	if ct := r.E.contractOf(fn); ct != nil && ct.Modular && r.ct != nil {
		inlineHere := (fn == r.ct.Target && fr != nil && fr.fn == r.ct.Harness) || r.ct.Inline[shortName(fn)]
		if !inlineHere {
			return r.useContract(fr, st, ct, args, where)
		}
	}
	if r.ct != nil && fn == r.ct.Target && fr != nil && fr.fn == r.ct.Harness {
		saved := r.inTarget
		r.inTarget = true
		if r.maxLit0 == 0 {
			r.maxLit0 = 1
		}
		vs := r.callFn(st, fn, args, binds, where)
		r.inTarget = saved
		return packResults(vs, fn.Signature)
	}
	pkg := pkgOf(fn)
	if v, ok := r.external(st, fn, pkg, args, where); ok {
		return v
	}
	vs := r.callFn(st, fn, args, binds, where)
	return packResults(vs, fn.Signature)
}

func shortName(fn *ssa.Function) string {
	return fn.RelString(fn.Pkg.Pkg)
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return fn.Origin().Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// useContract interprets the callee's contract at a call site.
func (r *Run) useContract(fr *Frame, st *State, ct *Contract, args []Val, where string) Val {
	r.UsedCt[ct.Name] = true
	saved := r.useCtx
	uc := &useCtx{ct: ct}
	r.useCtx = uc
	savedFrame, savedMods := r.modsSet, r.mods
	harnessRes := r.callFn(st, ct.Harness, args, nil, where)
	_ = harnessRes
	r.useCtx = saved
	r.modsSet, r.mods = savedFrame, savedMods
	if !uc.called && r.absPC(st).IsFalse() {
		// the precondition is false here (and reported): nothing after the call is reachable
		return r.havocRes(st, ct.Target.Signature, ct.Target.Name())
	}
	if !uc.called {
		unsup("contract %s never calls its target", ct.Name)
	}
	return packResults(uc.args, ct.Target.Signature)
}

// abstractCall: results and modified locations become arbitrary.
func (r *Run) abstractCall(st *State, fn *ssa.Function, args []Val, where string) Val {
	uc := r.useCtx
	// bump the allocation region: results may be fresh objects
	for _, m := range uc.mods {
		r.havocMod(st, m, where)
	}
	var vs []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		vs = append(vs, r.havoc(st, res.At(i).Type(), "ret."+fn.Name()))
	}
	uc.args = vs
	uc.called = true
	return packResults(vs, fn.Signature)
}

func (r *Run) havocMod(st *State, m modItem, where string) {
	r.frameCheck(st, m.v, where)
	switch u := under(m.t).(type) {
	case *types.Pointer:
		et := u.Elem()
		if m.v.Loc != nil {
			r.storeLoc(st, m.v.Loc, r.havoc(st, et, "mod"))
			return
		}
		r.storeRef(st, m.v.one(), et, r.havoc(st, et, "mod"))
	case *types.Slice:
		rows := r.rows(st, m.v.C[0], u.Elem())
		var nr []*T
		for _, row := range rows {
			n := r.c.Sym("modrow", row.Sort)
			x := r.c.BoundVar("i", smt.Int)
			in := r.c.And(r.c.Le(m.v.C[1], x), r.c.Lt(x, r.c.Add(m.v.C[1], m.v.C[2])))
			r.assumeAbs(r.c.Forall([]*T{x}, r.c.Or(in, r.c.Eq(r.c.Select(n, x), r.c.Select(row, x))), []*T{r.c.Select(n, x)}))
			nr = append(nr, n)
		}
		r.setRows(st, m.v.C[0], u.Elem(), nr)
	case *types.Map:
		kk, ks, vl := mapSorts(r, u)
		ref := m.v.one()
		r.heapSet(st, kk+"#dom", smt.ArrSort(ks, smt.Bool), ref, r.c.Sym("moddom", smt.ArrSort(ks, smt.Bool)))
		for i, lf := range vl {
			s := smt.ArrSort(ks, lf.Sort)
			r.heapSet(st, fmt.Sprintf("%s#%d", kk, i), s, ref, r.c.Sym("modval", s))
		}
		n := r.c.Sym("modlen", smt.Int)
		r.bound(n, new(big.Int), maxLen)
		r.heapSet(st, kk+"#len", smt.Int, ref, n)
	default:
		unsup("Modifies(%s)", m.t)
	}
}

// frameCheck: inside the target, writes must hit fresh objects or the modifies set.
func (r *Run) frameCheck(st *State, p Val, where string) {
	if !r.modsSet || !r.inTarget {
		return
	}
	var ref *T
	if p.Loc != nil {
		ref = p.Loc.Ref
	} else {
		ref = p.C[0]
	}
	r.frameRef(st, ref, where)
}

func (r *Run) frameRef(st *State, ref *T, where string) {
	if !r.modsSet || !r.inTarget {
		return
	}
	c := r.c
	alts := []*T{c.Lt(ref, c.I64(freshBase))}
	for _, m := range r.mods {
		alts = append(alts, c.Eq(ref, m))
	}
	r.obligation(st, "frame", "writes-only-declared", where, c.Or(alts...))
}

// ---- builtins

func (r *Run) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, instr *ssa.Call, where string) Val {
	c := r.c
	arg := func(i int) Val { return r.val(st, cc.Args[i]) }
	switch b.Name() {
	case "len":
		switch u := under(cc.Args[0].Type()).(type) {
		case *types.Slice:
			return Val{C: []*T{arg(0).C[2]}}
		case *types.Basic:
			return Val{C: []*T{r.strlen(st, arg(0).one())}}
		case *types.Map:
			return Val{C: []*T{r.mapLen(st, arg(0).one(), u)}}
		case *types.Array:
			return Val{C: []*T{c.I64(u.Len())}}
		case *types.Pointer:
			return Val{C: []*T{c.I64(under(u.Elem()).(*types.Array).Len())}}
		}
	case "cap":
		if _, ok := under(cc.Args[0].Type()).(*types.Slice); ok {
			return Val{C: []*T{arg(0).C[3]}}
		}
	case "append":
		return r.appendB(st, cc, instr, where)
	case "copy":
		return r.copyB(st, cc, where)
	case "delete":
		r.mapDelete(st, arg(0), under(cc.Args[0].Type()).(*types.Map), arg(1), where)
		return Val{}
	case "print", "println":
		return Val{}
	case "min", "max":
		v := arg(0).one()
		for i := 1; i < len(cc.Args); i++ {
			w := arg(i).one()
			if b.Name() == "min" {
				v = c.Ite(c.Le(v, w), v, w)
			} else {
				v = c.Ite(c.Le(w, v), v, w)
			}
		}
		return Val{C: []*T{v}}
	case "recover":
		return r.zero(types.NewInterfaceType(nil, nil))
	case "ssa:wrapnilchk":
		v := arg(0)
		r.nonNil(st, v.one(), where, "receiver")
		return v
	}
	unsup("builtin %s at %s", b.Name(), where)
	return Val{}
}

// exclusive: the backing array of v is reachable only through v (so in-place vs
// reallocating append cannot be distinguished).
func exclusive(v ssa.Value, user ssa.Instruction, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	soleUse := func() bool {
		if v.Referrers() == nil {
			return true
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if ssa.Instruction(x) == user {
					continue
				}
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == v && (len(x.Call.Args) < 2 || x.Call.Args[1] != v) {
					// extended on another branch
					if apart(v, user, x.Block()) {
						continue
					}
				}
				return false
			case *ssa.Phi:
				if !exclusivePhi(x, seen) {
					return false
				}
				continue
			case *ssa.Return, *ssa.IndexAddr, *ssa.Slice, *ssa.Range:
				// reads that complete before/after on another path: a returned or indexed
				// slice observes only elements below its own length, which appends at
				// index len never overwrite for the latest holder.
				continue
			default:
				if ssa.Instruction(ref) == user {
					continue
				}
				return false
			}
		}
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		return soleUse()
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return soleUse() && exclusive(x.Call.Args[0], x, seen)
		}
		return false
	case *ssa.Phi:
		if !soleUse() {
			return false
		}
		for _, e := range x.Edges {
			if !exclusive(e, x, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		// make([]T, n, const) is lowered to Slice(Alloc)
		if a, ok := x.X.(*ssa.Alloc); ok && a.Comment == "makeslice" {
			return soleUse()
		}
		if a, ok := x.X.(*ssa.Alloc); ok && a.Comment == "slicelit" {
			return soleUse()
		}
		return false
	}
	return false
}

func defBlock(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

// reaches: control can go from the end of a to b without passing through stop again.
func reaches(a, b, stop *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] || x == stop {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// apart: no execution passes both the use of v by user and (with the same v) block b.
func apart(v ssa.Value, user ssa.Instruction, b *ssa.BasicBlock) bool {
	ub, def := user.Block(), defBlock(v)
	if p, ok := user.(*ssa.Phi); ok {
		// the value is used on the edges that carry it
		if ub == b || reaches(ub, b, def) {
			return false
		}
		for i, e := range p.Edges {
			if pred := ub.Preds[i]; e == v && (pred == b || reaches(b, pred, def)) {
				return false
			}
		}
		return true
	}
	return ub != b && !reaches(ub, b, def) && !reaches(b, ub, def)
}

func exclusivePhi(p *ssa.Phi, seen map[ssa.Value]bool) bool { return true }

func (r *Run) appendB(st *State, cc *ssa.CallCommon, instr *ssa.Call, where string) Val {
	c := r.c
	s := r.val(st, cc.Args[0])
	et := under(cc.Args[0].Type()).(*types.Slice).Elem()
	a := r.val(st, cc.Args[1])
	var n *T
	agg := isStruct(et) || isArray(et) || isBig(et)
	isStr := false
	if b, ok := under(cc.Args[1].Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
		n = r.strlen(st, a.one())
	} else {
		n = a.C[2]
	}
	if n.IsConst() && n.I.Sign() == 0 {
		return s
	}
	excl := false
	if instr != nil {
		excl = exclusive(cc.Args[0], instr, map[ssa.Value]bool{})
		if !excl && os.Getenv("GOVC_EXCL") != "" {
			fmt.Fprintln(os.Stderr, "shared append", where)
		}
	}
	newLen := c.Add(s.C[2], n)
	var srcRows []*T
	var srcOff *T
	if isStr {
		bs := r.strToBytes(st, a.one())
		srcRows = r.rows(st, bs.C[0], et)
		srcOff = c.Zero
	} else if !agg {
		srcRows = r.rows(st, a.C[0], et)
		srcOff = a.C[1]
	}
	cp := c.Sym("cap", smt.Int)
	r.bound(cp, new(big.Int), maxLen)
	r.assume(st, c.Le(newLen, cp))
	write := func(st *State, base, off, at *T) {
		if agg {
			if !n.IsConst() || !n.I.IsInt64() || n.I.Int64() > 16 {
				unsup("append of symbolic number of aggregates at %s", where)
			}
			for i := int64(0); i < n.I.Int64(); i++ {
				v := r.loadRef(st, r.elem(a.C[0], c.Add(a.C[1], c.I64(i)), et), et)
				r.storeRef(st, r.elem(base, c.Add(at, c.I64(i)), et), et, v)
			}
			return
		}
		rows := r.rows(st, base, et)
		var nr []*T
		for k := range rows {
			nr = append(nr, r.spliceRow(rows[k], at, srcRows[k], srcOff, n))
		}
		r.setRows(st, base, et, nr)
	}
	if excl {
		base := s.C[0]
		off := s.C[1]
		isNil := c.Eq(base, c.Zero)
		if !isNil.IsFalse() {
			nb := r.newRef()
			if !agg {
				for k, lf := range r.flat(et) {
					rs := smt.ArrSort(smt.Int, lf.Sort)
					r.heapSet(st, fmt.Sprintf("%s#%d", elemKey(et), k), rs, nb, c.ConstArr(rs, r.zeroLeaf(lf)))
				}
			}
			base = c.Ite(isNil, nb, base)
			off = c.Ite(isNil, c.Zero, off)
		}
		write(st, base, off, c.Add(off, s.C[2]))
		return Val{C: []*T{base, off, newLen, cp}}
	}
	// general: in place when capacity suffices, else a fresh copy
	fits := c.Le(newLen, s.C[3])
	if n.IsConst() && n.I.Sign() > 0 {
		fits = c.And(fits, c.Not(c.Eq(s.C[0], c.Zero)))
	}
	if fits.IsFalse() || fits.IsTrue() {
		if fits.IsTrue() {
			r.frameRef(st, s.C[0], where)
			write(st, s.C[0], s.C[1], c.Add(s.C[1], s.C[2]))
			return Val{C: []*T{s.C[0], s.C[1], newLen, s.C[3]}}
		}
		return r.appendFresh(st, s, et, agg, n, newLen, cp, write, where)
	}
	s1 := st.fork(fits, c)
	s2 := st.fork(c.Not(fits), c)
	r.frameRef(s1, s.C[0], where)
	write(s1, s.C[0], s.C[1], c.Add(s.C[1], s.C[2]))
	v1 := Val{C: []*T{s.C[0], s.C[1], newLen, s.C[3]}}
	v2 := r.appendFresh(s2, s, et, agg, n, newLen, cp, write, where)
	st.heaps = r.mergeHeaps(fits, s1.heaps, s2.heaps)
	m, _ := mergeVals(c, fits, v1, v2)
	return m
}

func (r *Run) appendFresh(st *State, s Val, et types.Type, agg bool, n, newLen, cp *T, write func(*State, *T, *T, *T), where string) Val {
	c := r.c
	nb := r.newRef()
	if agg {
		if !s.C[2].IsConst() || s.C[2].I.Int64() > 32 {
			unsup("append copying symbolic number of aggregates at %s", where)
		}
		for i := int64(0); i < s.C[2].I.Int64(); i++ {
			v := r.loadRef(st, r.elem(s.C[0], c.Add(s.C[1], c.I64(i)), et), et)
			r.storeRef(st, r.elem(nb, c.I64(i), et), et, v)
		}
	} else {
		old := r.rows(st, s.C[0], et)
		var nr []*T
		lfs := r.flat(et)
		for k := range old {
			z := c.ConstArr(old[k].Sort, r.zeroLeaf(lfs[k]))
			nr = append(nr, r.spliceRow(z, c.Zero, old[k], s.C[1], s.C[2]))
		}
		r.setRows(st, nb, et, nr)
	}
	write(st, nb, c.Zero, s.C[2])
	return Val{C: []*T{nb, c.Zero, newLen, cp}}
}

func (r *Run) copyB(st *State, cc *ssa.CallCommon, where string) Val {
	c := r.c
	d := r.val(st, cc.Args[0])
	et := under(cc.Args[0].Type()).(*types.Slice).Elem()
	s := r.val(st, cc.Args[1])
	if b, ok := under(cc.Args[1].Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s = r.strToBytes(st, s.one())
	}
	return r.copySl(st, d, s, et, where, c)
}

func (r *Run) copySl(st *State, d, s Val, et types.Type, where string, c *smt.Ctx) Val {
	n := c.Ite(c.Le(d.C[2], s.C[2]), d.C[2], s.C[2])
	if n.IsConst() && n.I.Sign() == 0 {
		return Val{C: []*T{n}}
	}
	r.frameRefIf(st, d.C[0], n, where)
	if isStruct(et) || isArray(et) || isBig(et) {
		if !n.IsConst() || n.I.Int64() > 32 {
			unsup("copy of symbolic number of aggregates at %s", where)
		}
		var vs []Val
		for i := int64(0); i < n.I.Int64(); i++ {
			vs = append(vs, r.loadRef(st, r.elem(s.C[0], c.Add(s.C[1], c.I64(i)), et), et))
		}
		for i := int64(0); i < n.I.Int64(); i++ {
			r.storeRef(st, r.elem(d.C[0], c.Add(d.C[1], c.I64(i)), et), et, vs[i])
		}
		return Val{C: []*T{n}}
	}
	dr, sr := r.rows(st, d.C[0], et), r.rows(st, s.C[0], et)
	var nr []*T
	for k := range dr {
		// copying of a bounded destination: expand with guards
		if !n.IsConst() && d.C[2].IsConst() && d.C[2].I.IsInt64() && d.C[2].I.Int64() <= 40 {
			out := dr[k]
			for i := int64(0); i < d.C[2].I.Int64(); i++ {
				ki := c.I64(i)
				old := c.Select(dr[k], c.Add(d.C[1], ki))
				out = c.Store(out, c.Add(d.C[1], ki), c.Ite(c.Lt(ki, s.C[2]), c.Select(sr[k], c.Add(s.C[1], ki)), old))
			}
			nr = append(nr, out)
			continue
		}
		nr = append(nr, r.spliceRow(dr[k], d.C[1], sr[k], s.C[1], n))
	}
	r.setRows(st, d.C[0], et, nr)
	return Val{C: []*T{n}}
}

func (r *Run) frameRefIf(st *State, ref, n *T, where string) {
	if !r.modsSet || !r.inTarget {
		return
	}
	c := r.c
	alts := []*T{c.Lt(ref, c.I64(freshBase)), c.Le(n, c.Zero)}
	for _, m := range r.mods {
		alts = append(alts, c.Eq(ref, m))
	}
	r.obligation(st, "frame", "writes-only-declared", where, c.Or(alts...))
}

// ---- range over maps/strings

// Iteration over a map: an arbitrary order, every key of the map exactly once (the map is
// assumed not to be changed by the loop). The iterator is a heap cell with a counter and the
// set of keys already visited.
func (r *Run) rangeInit(st *State, x *ssa.Range) Val {
	mt, ok := under(x.X.Type()).(*types.Map)
	if !ok {
		unsup("range over string at %s", r.ppos(x))
	}
	c := r.c
	ref := r.newRef()
	_, ks, _ := mapSorts(r, mt)
	ds := smt.ArrSort(ks, smt.Bool)
	r.heapSet(st, "iter#n", smt.Int, ref, c.Zero)
	r.heapSet(st, "iter#vis:"+ks, ds, ref, c.ConstArr(ds, c.False))
	m := r.val(st, x.X).one()
	kk, _, _ := mapSorts(r, mt)
	return Val{C: []*T{ref, m, c.Select(r.heap(st, kk+"#dom", ds), m)}}
}

func (r *Run) rangeNext(st *State, x *ssa.Next) Val {
	rg, ok := x.Iter.(*ssa.Range)
	if !ok || x.IsString {
		unsup("next at %s", r.ppos(x))
	}
	c := r.c
	it := r.val(st, x.Iter)
	ref, m := it.C[0], it.C[1]
	mt := under(rg.X.Type()).(*types.Map)
	kk, ks, _ := mapSorts(r, mt)
	ds := smt.ArrSort(ks, smt.Bool)
	n := c.Select(r.heap(st, "iter#n", smt.Int), ref)
	ln := c.Ite(c.Eq(m, c.Zero), c.Zero, r.mapLen(st, m, mt))
	more := c.Lt(n, ln)
	vis := c.Select(r.heap(st, "iter#vis:"+ks, ds), ref)
	dom := c.Select(r.heap(st, kk+"#dom", ds), m)
	if dom != it.C[2] {
		unsup("map changed while iterated over at %s", r.ppos(x))
	}
	k := r.havoc(st, mt.Key(), "key")
	key := r.mapKey(k, mt)
	v, _ := r.mapGet(st, m, mt, key)
	if !more.IsFalse() {
		r.assume(st, c.Implies(more, c.And(c.Select(dom, key), c.Not(c.Select(vis, key)))))
	}
	r.heapSet(st, "iter#n", smt.Int, ref, c.Ite(more, c.Add(n, c.One), n))
	r.heapSet(st, "iter#vis:"+ks, ds, ref, c.Ite(more, c.Store(vis, key, c.True), vis))
	return Val{Parts: []Val{{C: []*T{more}}, k, v}}
}

// sortSlice: sort.Slice of a slice of constant length, as the insertion sort the library uses
// for short slices.
func (r *Run) sortSlice(fr *Frame, st *State, args []Val, where string) {
	c := r.c
	ls, all := constLeaves(args[0].C[0])
	if !all || len(ls) != 1 || ls[0].I.Sign() == 0 || ls[0].I.Int64() > int64(len(r.tagType)) {
		unsup("sort.Slice of unknown type at %s", where)
	}
	t := r.tagType[ls[0].I.Int64()-1]
	et := under(t).(*types.Slice).Elem()
	sl := r.unbox(st, args[0].C[1], t)
	if !sl.C[2].IsConst() || sl.C[2].I.Int64() > 8 {
		unsup("sort.Slice of symbolic length at %s", where)
	}
	sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int]), types.NewVar(0, nil, "", types.Typ[types.Int])), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)
	n := sl.C[2].I.Int64()
	for i := int64(1); i < n; i++ {
		active := c.True
		for j := i; j > 0; j-- {
			less := r.callDyn(fr, st, args[1], []Val{{C: []*T{c.I64(j)}}, {C: []*T{c.I64(j - 1)}}}, sig, where)
			active = c.And(active, less.one())
			pa, pb := r.elemAddr(sl.C[0], c.Add(sl.C[1], c.I64(j)), et), r.elemAddr(sl.C[0], c.Add(sl.C[1], c.I64(j-1)), et)
			a, b := r.load(st, pa, et), r.load(st, pb, et)
			na, ok1 := mergeVals(c, active, b, a)
			nb, ok2 := mergeVals(c, active, a, b)
			if !ok1 || !ok2 {
				unsup("sort.Slice elements at %s", where)
			}
			r.store(st, pa, et, na)
			r.store(st, pb, et, nb)
		}
	}
}

// ---- recursive specification functions

func (r *Run) specCall(fr *Frame, st *State, fn *ssa.Function, args []Val, where string) Val {
	c := r.c
	info := r.E.specInfo(r, fn)
	var ts []*T
	for _, a := range args {
		if a.Loc != nil {
			unsup("spec function with interior pointer argument")
		}
		ts = append(ts, a.C...)
	}
	for _, k := range info.heaps {
		h, ok := st.heaps[k]
		if !ok {
			h = r.heap(st, k, info.sorts[k])
		}
		ts = append(ts, h)
	}
	res := fn.Signature.Results()
	if res.Len() != 1 {
		unsup("spec function must have one result")
	}
	var out Val
	for i, lf := range r.flat(res.At(0).Type()) {
		t := c.App(fmt.Sprintf("spec.%s.%d", fn.Name(), i), lf.Sort, ts...)
		r.typeFacts(st, t, lf, nil)
		out.C = append(out.C, t)
	}
	key := fmt.Sprintf("unf%s", fn.Name())
	for _, t := range ts {
		key += fmt.Sprintf(",%d", t.ID)
	}
	bound := false
	for _, t := range ts {
		if t.Bound {
			bound = true
		}
	}
	if bound {
		r.specBound++
	}
	if !r.axioms[key] && !bound && r.unfolding < 2 {
		r.axioms[key] = true
		r.unfolding++
		r.mute++
		s2 := &State{pc: c.True, env: map[ssa.Value]Val{}, heaps: cloneHeaps(st.heaps)}
		savedStack := r.stack
		r.stack = nil
		savedRec := r.recording
		r.recording = 0
		vs := r.callFn(s2, fn, args, nil, where)
		r.recording = savedRec
		r.stack = savedStack
		r.mute--
		r.unfolding--
		for i := range out.C {
			r.assumeAbs(c.Eq(out.C[i], vs[0].C[i]))
		}
	}
	return out
}

type specInf struct {
	heaps []string
	sorts map[string]string
}

func (e *Engine) specInfo(r *Run, fn *ssa.Function) *specInf {
	if s, ok := r.specInf[fn]; ok {
		return s
	}
	// discover heaps read by executing the body on arbitrary arguments in a scratch run
	s := &specInf{sorts: map[string]string{}}
	r.specInf[fn] = s
	scratch := e.newRun(r.ct)
	scratch.specInf[fn] = s
	scratch.mute = 1
	st := &State{pc: scratch.c.True, env: map[ssa.Value]Val{}, heaps: map[string]*T{}}
	var args []Val
	for _, p := range fn.Params {
		args = append(args, scratch.havoc(st, p.Type(), p.Name()))
	}
	scratch.callFn(st, fn, args, nil, "spec")
	for k, h := range scratch.heap0 {
		_, vs := smt.SplitArr(h.Sort)
		s.heaps = append(s.heaps, k)
		s.sorts[k] = vs
	}
	sort.Strings(s.heaps)
	return s
}
