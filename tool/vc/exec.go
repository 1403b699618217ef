package vc

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"govc/smt"
)

// Frame is one activation of an inlined function.
type Frame struct {
	fn         *ssa.Function
	pc0        *T
	parent     *Frame
	defers     []deferRec
	rets       []retRec
	loops      *loopInfo
	args       []Val
	binds      []Val
	call       string
	entryHeaps map[string]*T
	panics     []*T
	results    []Val
	callerEnv  map[ssa.Value]Val
	cut        bool // contains a loop cut by an invariant
}

type deferRec struct {
	cond  *T
	call  *ssa.CallCommon
	fv    Val
	args  []Val
	instr *ssa.Defer
}

type retRec struct {
	st   *State
	vals []Val
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

func (r *Run) pos(p token.Pos) string {
	if !p.IsValid() {
		if n := len(r.stack); n > 0 {
			return r.stack[n-1].fn.String()
		}
		return "-"
	}
	ps := r.E.Prog.Fset.Position(p)
	f := ps.Filename
	if rel, err := filepath.Rel(r.E.Repo, f); err == nil && !strings.HasPrefix(rel, "..") {
		f = rel
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (r *Run) ppos(in ssa.Instruction) string { return r.pos(instrPos(in)) }

func instrPos(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	if b := in.Block(); b != nil {
		seen := false
		best := token.NoPos
		for _, x := range b.Instrs {
			if x == in {
				seen = true
			}
			if p := x.Pos(); p.IsValid() {
				best = p
				if seen {
					return p
				}
			}
		}
		return best
	}
	return token.NoPos
}

const maxDepth = 60

// callFn inlines fn.
func (r *Run) callFn(st *State, fn *ssa.Function, args []Val, binds []Val, where string) []Val {
	r.E.build(fn)
	if fn.Blocks == nil {
		unsup("function without body: %s (called at %s)", fn, where)
	}
	if len(r.stack) > maxDepth {
		unsup("inline depth exceeded at %s", fn)
	}
	rec := 0
	for _, f := range r.stack {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 8 {
		r.obligation(st, "unwind", "recursion-bound:"+fn.String(), where, r.c.False)
		st.dead = true
		return r.deadResults(fn)
	}
	if len(args) != len(fn.Params) {
		unsup("internal: arity mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	r.Inlined[fn.String()] = true
	r.InlFns[fn] = true
	fr := &Frame{fn: fn, pc0: r.absPC(st), args: args, binds: binds, call: where, callerEnv: st.env}
	if n := len(r.stack); n > 0 {
		fr.parent = r.stack[n-1]
	}
	fr.entryHeaps = st.heaps
	fr.loops = r.E.loopsOf(fn)
	callee := &State{pc: r.c.True, env: map[ssa.Value]Val{}, heaps: cloneHeaps(st.heaps)}
	for i, p := range fn.Params {
		callee.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		callee.env[fv] = binds[i]
	}
	r.stack = append(r.stack, fr)
	exits := r.runRegion(fr, nil, []edge{{nil, fn.Blocks[0], callee}})
	if len(exits) != 0 {
		unsup("internal: dangling exits in %s", fn)
	}
	r.stack = r.stack[:len(r.stack)-1]
	// merge returns
	if len(fr.rets) == 0 {
		st.dead = true
		st.pc = r.c.False
		return r.deadResults(fn)
	}
	out := fr.rets[len(fr.rets)-1]
	heaps, vals := out.st.heaps, out.vals
	heaps = cloneHeaps(heaps)
	vals = append([]Val{}, vals...)
	for i := len(fr.rets) - 2; i >= 0; i-- {
		rr := fr.rets[i]
		cond := rr.st.pc
		heaps = r.mergeHeaps(cond, rr.st.heaps, heaps)
		for k := range vals {
			m, ok := mergeVals(r.c, cond, rr.vals[k], vals[k])
			if !ok {
				unsup("cannot merge results of %s", fn)
			}
			vals[k] = m
		}
	}
	st.heaps = heaps
	if fr.cut {
		// a loop was cut by its invariant: execution continues only where it was left
		var pcs []*T
		for _, rr := range fr.rets {
			pcs = append(pcs, rr.st.pc)
		}
		st.pc = r.c.And(st.pc, r.c.Or(pcs...))
		if fr.parent != nil {
			fr.parent.cut = true
		}
	}
	if len(fr.panics) > 0 {
		// execution continues only where no (permitted) panic happened
		st.pc = r.c.And(st.pc, r.c.Not(r.c.Or(fr.panics...)))
	}
	return vals
}

func (r *Run) deadResults(fn *ssa.Function) []Val {
	var out []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		out = append(out, r.zero(res.At(i).Type()))
	}
	return out
}

func cloneHeaps(h map[string]*T) map[string]*T {
	n := make(map[string]*T, len(h))
	for k, v := range h {
		n[k] = v
	}
	return n
}

func (r *Run) mergeHeaps(cond *T, a, b map[string]*T) map[string]*T {
	out := make(map[string]*T, len(a))
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			w = r.initHeap(k, v)
		}
		out[k] = r.c.Ite(cond, v, w)
	}
	for k, w := range b {
		if _, ok := a[k]; !ok {
			out[k] = r.c.Ite(cond, r.initHeap(k, w), w)
		}
	}
	return out
}

func (r *Run) initHeap(k string, like *T) *T {
	if h, ok := r.heap0[k]; ok {
		return h
	}
	_, vs := smt.SplitArr(like.Sort)
	h := r.c.Sym("H."+k, like.Sort)
	r.heap0[k] = h
	r.hsort[k] = vs
	return h
}

// mergeStates joins incoming edges at block b and evaluates phis.
func (r *Run) mergeStates(b *ssa.BasicBlock, ins []edge) *State {
	if len(ins) == 1 {
		st := ins[0].st
		r.evalPhis(b, ins[0].from, st)
		return st
	}
	for i := range ins {
		if ins[i].from != nil {
			r.evalPhis(b, ins[i].from, ins[i].st)
		}
	}
	last := ins[len(ins)-1].st
	out := &State{pc: last.pc, env: last.env, heaps: last.heaps}
	for i := len(ins) - 2; i >= 0; i-- {
		s := ins[i].st
		cond := s.pc
		ne := make(map[ssa.Value]Val, len(out.env))
		for k, v := range s.env {
			w, ok := out.env[k]
			if !ok {
				continue
			}
			m, ok := mergeVals(r.c, cond, v, w)
			if !ok {
				continue // not representable; a later use will fail loudly
			}
			ne[k] = m
		}
		out = &State{pc: r.c.Or(s.pc, out.pc), env: ne, heaps: r.mergeHeaps(cond, s.heaps, out.heaps)}
	}
	return out
}

func (r *Run) evalPhis(b, from *ssa.BasicBlock, st *State) {
	if from == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var vs []pv
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, pv{p, r.val(st, p.Edges[idx])})
	}
	for _, x := range vs {
		st.env[x.p] = x.v
	}
}

// runRegion executes blocks of a region (loop body, or whole function if lp==nil).
// Entry edges all target the region header. Returns edges leaving the region,
// including back edges to the header.
func (r *Run) runRegion(fr *Frame, lp *loop, entry []edge) []edge {
	li := fr.loops
	var header *ssa.BasicBlock
	if lp == nil {
		header = fr.fn.Blocks[0]
	} else {
		header = lp.header
	}
	pending := map[*ssa.BasicBlock][]edge{}
	pending[header] = entry
	var exits []edge
	emit := func(e edge) {
		if e.st.pc.IsFalse() || e.st.dead {
			return
		}
		inRegion := lp == nil || lp.blocks[e.to]
		if inRegion && e.to != header {
			pending[e.to] = append(pending[e.to], e)
		} else {
			exits = append(exits, e)
		}
	}
	for _, b := range li.rpo {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		inner := li.inner[b]
		// find the child loop of lp that contains b
		child := inner
		for child != nil && child.parent != lp && child != lp {
			child = child.parent
		}
		if child == lp {
			child = nil
		}
		if child != nil && b != child.header {
			continue
		}
		ins := pending[b]
		if len(ins) == 0 {
			continue
		}
		if child != nil {
			for _, e := range r.runLoop(fr, child, ins) {
				emit(e)
			}
			continue
		}
		st := r.mergeStates(b, ins)
		r.runBlock(fr, b, st, emit)
	}
	return exits
}

func (r *Run) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, emit func(edge)) {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			cond := r.val(st, x.Cond).one()
			t := st.fork(cond, r.c)
			f := st
			f.pc = r.c.And(f.pc, r.c.Not(cond))
			if !t.pc.IsFalse() && !r.infeasible(t) {
				emit(edge{b, b.Succs[0], t})
			}
			if !f.pc.IsFalse() && !r.infeasible(f) {
				emit(edge{b, b.Succs[1], f})
			}
			return
		case *ssa.Jump:
			emit(edge{b, b.Succs[0], st})
			return
		case *ssa.Return:
			var vs []Val
			for _, v := range x.Results {
				vs = append(vs, r.val(st, v))
			}
			fr.rets = append(fr.rets, retRec{st, vs})
			return
		case *ssa.Panic:
			if r.ct != nil && r.ct.MayPanic {
				fr.panics = append(fr.panics, st.pc)
			} else {
				r.obligation(st, "safety", "no-panic", r.ppos(in), r.c.False)
			}
			return
		default:
			r.instr(fr, st, in)
			if st.dead || st.pc.IsFalse() {
				return
			}
		}
	}
}

func (r *Run) infeasible(st *State) bool { return r.absPC(st).IsFalse() }

// ---- loops

func (r *Run) runLoop(fr *Frame, lp *loop, ins []edge) []edge {
	inv := r.E.invFor(fr.fn, lp)
	if inv != nil && !r.skipInv {
		return r.runLoopInv(fr, lp, ins, inv)
	}
	var exits []edge
	cur := ins
	max := r.unrollLimit(fr.fn)
	for k := 0; ; k++ {
		outs := r.runRegion(fr, lp, cur)
		cur = nil
		for _, e := range outs {
			if e.to == lp.header {
				cur = append(cur, e)
			} else {
				exits = append(exits, e)
			}
		}
		if len(cur) == 0 {
			break
		}
		if k%8 == 7 {
			// prune by solver
			var live []edge
			for _, e := range cur {
				if !r.provedInfeasible(e.st) {
					live = append(live, e)
				}
			}
			cur = live
			if len(cur) == 0 {
				break
			}
		}
		if k >= max {
			for _, e := range cur {
				if r.bounded > 0 {
					r.Bounded = true
				} else {
					r.obligation(e.st, "unwind", fmt.Sprintf("loop-bound:%s#%d<=%d", shortFn(fr.fn), lp.ord, max), r.pos(lp.pos), r.c.False)
				}
			}
			break
		}
		// merge back edges into one state to keep the unrolling linear
		if len(cur) > 1 {
			st := r.mergeStates(lp.header, cur)
			cur = []edge{{nil, lp.header, st}}
		}
	}
	// merge exits with same target/from to bound growth
	return r.groupEdges(exits)
}

func (r *Run) groupEdges(es []edge) []edge {
	type k struct{ a, b *ssa.BasicBlock }
	var order []k
	m := map[k][]edge{}
	for _, e := range es {
		kk := k{e.from, e.to}
		if m[kk] == nil {
			order = append(order, kk)
		}
		m[kk] = append(m[kk], e)
	}
	var out []edge
	for _, kk := range order {
		g := m[kk]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		// merge env + heaps, without evaluating phis (from==nil trick)
		var gg []edge
		for _, e := range g {
			gg = append(gg, edge{nil, e.to, e.st})
		}
		st := r.mergeStates(kk.b, gg)
		out = append(out, edge{kk.a, kk.b, st})
	}
	return out
}

func (r *Run) unrollLimit(fn *ssa.Function) int {
	if r.bounded > 0 {
		return r.bounded
	}
	if r.ct != nil && r.ct.Unroll > 0 {
		return r.ct.Unroll
	}
	return 70
}

func shortFn(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/vitelabs/go-vite/v2/", "")
	return s
}

func (r *Run) provedInfeasible(st *State) bool {
	pc := r.absPC(st)
	if pc.IsFalse() {
		return true
	}
	return false
}

// runLoopInv: check, havoc, assume, body once, check.
func (r *Run) runLoopInv(fr *Frame, lp *loop, ins []edge, inv *Invariant) []edge {
	fr.cut = true
	pre := r.mergeStates(lp.header, ins)
	phis := headerPhis(lp.header)
	r.checkInv(fr, lp, inv, pre, pre, "entry")
	// discover writes
	type wkey struct {
		key string
		ref int
	}
	exact := map[string]map[int]*T{}
	any := map[string]bool{}
	freshW := map[string]bool{}
	marker := r.c.SymSeq()
	facts0 := len(r.facts)
	lit0 := r.nLit
	mkHead := func() *State {
		h := &State{pc: pre.pc, env: make(map[ssa.Value]Val, len(pre.env)), heaps: cloneHeaps(pre.heaps)}
		for k, v := range pre.env {
			h.env[k] = v
		}
		keys := map[string]bool{}
		for k := range exact {
			keys[k] = true
		}
		for k := range any {
			keys[k] = true
		}
		for k := range freshW {
			keys[k] = true
		}
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			srt := r.hsort[k]
			old := r.heap(h, k, srt)
			_, srt = smt.SplitArr(old.Sort)
			if any[k] {
				h.heaps[k] = r.c.Sym("L."+k, old.Sort)
				continue
			}
			cur := old
			if freshW[k] {
				nh := r.c.Sym("L."+k, old.Sort)
				x := r.c.BoundVar("r", smt.Int)
				r.assumeAbs(r.c.Forall([]*T{x}, r.c.Implies(r.c.Le(r.c.I64(freshBase-lit0), x), r.c.Eq(r.c.Select(nh, x), r.c.Select(old, x))), []*T{r.c.Builtin("select", srt, nh, x)}))
				if r.c.Frames == nil {
					r.c.Frames = map[int]smt.Frame{}
				}
				r.c.Frames[nh.ID] = smt.Frame{Old: old, Lim: big.NewInt(freshBase - lit0)}
				cur = nh
			}
			var ids []int
			for id := range exact[k] {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				ref := exact[k][id]
				cur = r.c.Store(cur, ref, r.c.Sym("L."+k, srt))
			}
			h.heaps[k] = cur
		}
		for _, p := range phis {
			h.env[p] = r.havoc(h, p.Type(), "L."+p.Comment)
		}
		return h
	}
	for round := 0; ; round++ {
		if round > 8 {
			unsup("loop write-set discovery does not converge in %s", fr.fn)
		}
		h := mkHead()
		r.mute++
		r.recording++
		savedW := r.writes
		r.writes = nil
		savedRets, savedPan := fr.rets, fr.panics
		r.checkOrAssumeInv(fr, lp, inv, h, pre, false, "")
		r.runRegion(fr, lp, []edge{{nil, lp.header, h}})
		fr.rets, fr.panics = savedRets, savedPan
		ws := r.writes
		r.writes = append(savedW, ws...)
		r.recording--
		r.mute--
		changed := false
		for _, w := range ws {
			if any[w.key] {
				continue
			}
			if w.ref.IsConst() && w.ref.I.Cmp(big.NewInt(freshBase-lit0)) < 0 {
				if !freshW[w.key] {
					freshW[w.key] = true
					changed = true
				}
				continue
			}
			if w.ref.Sym <= marker && !w.ref.Bound {
				// loop-invariant target
				if containsFreshLit(w.ref, lit0) {
					any[w.key] = true
					changed = true
					continue
				}
				if exact[w.key] == nil {
					exact[w.key] = map[int]*T{}
				}
				if exact[w.key][w.ref.ID] == nil {
					exact[w.key][w.ref.ID] = w.ref
					changed = true
				}
				continue
			}
			any[w.key] = true
			changed = true
		}
		if !changed {
			break
		}
	}
	r.dropFacts(facts0, marker)
	// objects allocated by earlier iterations live in the region below regionBase
	h := mkHead()
	r.checkOrAssumeInv(fr, lp, inv, h, pre, false, "")
	outs := r.runRegion(fr, lp, []edge{{nil, lp.header, h}})
	var exits []edge
	for _, e := range outs {
		if e.to == lp.header {
			r.evalPhis(lp.header, e.from, e.st)
			r.checkInv(fr, lp, inv, e.st, pre, "preserved")
		} else {
			exits = append(exits, e)
		}
	}
	return exits
}

// dropFacts forgets what was learnt about the placeholder values of write-set discovery.
func (r *Run) dropFacts(from, marker int) {
	memo := map[int]bool{}
	var dead func(t *T) bool
	dead = func(t *T) bool {
		if t.Sym <= marker {
			return false
		}
		if d, ok := memo[t.ID]; ok {
			return d
		}
		d := false
		if t.Op == "sym" {
			for _, p := range []string{"L.", "mod", "ret.", "wit"} {
				d = d || strings.HasPrefix(t.Name, p)
			}
		}
		for _, a := range t.Args {
			if d {
				break
			}
			d = dead(a)
		}
		memo[t.ID] = d
		return d
	}
	out := r.facts[:from:from]
	for _, f := range r.facts[from:] {
		if !dead(f) {
			out = append(out, f)
		}
	}
	r.facts = out
}

func containsFreshLit(t *T, lit0 int64) bool {
	lim := big.NewInt(freshBase - lit0)
	seen := map[int]bool{}
	var f func(t *T) bool
	f = func(t *T) bool {
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		if t.IsConst() && t.I.Cmp(lim) < 0 && t.I.Cmp(big.NewInt(regionBase)) > 0 {
			return true
		}
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// ---- values

func (r *Run) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return r.constVal(x)
	case *ssa.Function:
		return Val{C: []*T{r.funcID(&Closure{Fn: x})}}
	case *ssa.Global:
		return Val{C: []*T{r.globalRef(x)}}
	case *ssa.Builtin:
		unsup("builtin as value %s", x)
	}
	if w, ok := st.env[v]; ok {
		return w
	}
	n := len(r.stack)
	fnm := "?"
	if n > 0 {
		fnm = r.stack[n-1].fn.String()
	}
	unsup("undefined SSA value %s = %s in %s (parent %v)", v.Name(), v, fnm, v.Parent())
	return Val{}
}

func (r *Run) funcID(cl *Closure) *T {
	if len(cl.Bind) == 0 {
		k := "fn:" + cl.Fn.String()
		if id, ok := r.fnIDs[k]; ok {
			return r.c.I64(id)
		}
		r.funcs = append(r.funcs, cl)
		id := int64(len(r.funcs))
		r.fnIDs[k] = id
		return r.c.I64(id)
	}
	r.funcs = append(r.funcs, cl)
	return r.c.I64(int64(len(r.funcs)))
}

func (r *Run) strID(s string) *T {
	if s == "" {
		return r.c.Zero
	}
	if id, ok := r.strs[s]; ok {
		return r.c.I64(id)
	}
	id := int64(len(r.strs) + 1)
	r.strs[s] = id
	r.strVals = append(r.strVals, s)
	t := r.c.I64(id)
	r.facts = append(r.facts, r.c.Eq(r.c.App("strlen", smt.Int, t), r.c.I64(int64(len(s)))))
	if len(s) <= 80 {
		for i := 0; i < len(s); i++ {
			r.facts = append(r.facts, r.c.Eq(r.c.App("strat", smt.Int, t, r.c.I64(int64(i))), r.c.I64(int64(s[i]))))
		}
	}
	return t
}

func (r *Run) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return r.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{C: []*T{r.c.B(constant.BoolVal(x.Value))}}
		case u.Info()&types.IsInteger != 0:
			v, _ := new(big.Int).SetString(constant.ToInt(x.Value).ExactString(), 10)
			return Val{C: []*T{r.c.Big(v)}}
		case u.Info()&types.IsString != 0:
			return Val{C: []*T{r.strID(constant.StringVal(x.Value))}}
		case u.Info()&types.IsFloat != 0:
			return Val{C: []*T{r.c.App("flt."+x.Value.ExactString(), smt.Int)}}
		}
	}
	unsup("constant %s", x)
	return Val{}
}

// globalRef returns the address of a package variable, initialising its content lazily.
func (r *Run) globalRef(g *ssa.Global) *T {
	if t, ok := r.globals[g]; ok {
		return t
	}
	t := r.newGRef()
	r.globals[g] = t
	r.initGlobal(g, t)
	return t
}

func (r *Run) typeTag(t types.Type) *T {
	k := tkey(t)
	if id, ok := r.tags[k]; ok {
		return r.c.I64(id)
	}
	r.tagType = append(r.tagType, t)
	id := int64(len(r.tagType))
	r.tags[k] = id
	return r.c.I64(id)
}

// ---- instructions

func (r *Run) nonNil(st *State, ref *T, where string, what string) {
	r.obligation(st, "safety", "nil-deref:"+what, where, r.c.Not(r.c.Eq(ref, r.c.Zero)))
}

// stripNil drops the nil alternatives of a reference that has just been found not to be nil.
func (r *Run) stripNil(ref *T) *T {
	memo := map[int]*T{}
	var f func(t *T) *T
	f = func(t *T) *T {
		if t.Op != "ite" {
			return t
		}
		if m := memo[t.ID]; m != nil {
			return m
		}
		a, b := f(t.Args[1]), f(t.Args[2])
		m := t
		switch {
		case a.IsConst() && a.I.Sign() == 0:
			m = b
		case b.IsConst() && b.I.Sign() == 0:
			m = a
		case a != t.Args[1] || b != t.Args[2]:
			m = r.c.Ite(t.Args[0], a, b)
		}
		memo[t.ID] = m
		return m
	}
	return f(ref)
}

func (r *Run) instr(fr *Frame, st *State, in ssa.Instruction) {
	c := r.c
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		ref := r.allocT(st, x.Type().(*types.Pointer).Elem())
		st.env[x] = Val{C: []*T{ref}}
	case *ssa.BinOp:
		st.env[x] = r.binop(st, x.Op, r.val(st, x.X), r.val(st, x.Y), x.X.Type(), x.Y.Type(), x.Type(), r.ppos(in))
	case *ssa.UnOp:
		st.env[x] = r.unop(st, x)
	case *ssa.ChangeType:
		st.env[x] = r.val(st, x.X)
		r.checkPtrConv(x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		st.env[x] = r.val(st, x.X)
	case *ssa.Convert:
		st.env[x] = r.convert(st, r.val(st, x.X), x.X.Type(), x.Type(), r.ppos(in))
	case *ssa.MakeInterface:
		st.env[x] = r.mkIface(r.val(st, x.X), x.X.Type())
	case *ssa.TypeAssert:
		st.env[x] = r.typeAssert(st, x)
	case *ssa.Extract:
		t := r.val(st, x.Tuple)
		if x.Index >= len(t.Parts) {
			unsup("extract %s", x)
		}
		st.env[x] = t.Parts[x.Index]
	case *ssa.Field:
		st.env[x] = r.field(r.val(st, x.X), x.X.Type(), x.Field)
	case *ssa.FieldAddr:
		p := r.val(st, x.X)
		pt := under(x.X.Type()).(*types.Pointer).Elem()
		r.nonNil(st, p.one(), r.ppos(in), "field "+fieldName(pt, x.Field))
		st.env[x] = r.fieldAddr(r.stripNil(p.one()), pt, x.Field)
	case *ssa.Index:
		st.env[x] = r.index(st, x)
	case *ssa.IndexAddr:
		st.env[x] = r.indexAddr(st, x)
	case *ssa.Lookup:
		st.env[x] = r.lookup(st, x)
	case *ssa.MapUpdate:
		r.mapUpdate(st, r.val(st, x.Map), under(x.Map.Type()).(*types.Map), r.val(st, x.Key), r.val(st, x.Value), r.ppos(in))
	case *ssa.MakeMap:
		ref := r.newRef()
		mt := under(x.Type()).(*types.Map)
		r.mapInit(st, ref, mt)
		st.env[x] = Val{C: []*T{ref}}
	case *ssa.MakeSlice:
		st.env[x] = r.makeSlice(st, x.Type(), r.val(st, x.Len).one(), r.val(st, x.Cap).one(), r.ppos(in))
	case *ssa.MakeClosure:
		cl := &Closure{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cl.Bind = append(cl.Bind, r.val(st, b))
		}
		if len(cl.Bind) == 0 {
			cl.Bind = []Val{}
		}
		r.funcs = append(r.funcs, cl)
		st.env[x] = Val{C: []*T{c.I64(int64(len(r.funcs)))}}
	case *ssa.MakeChan:
		st.env[x] = Val{C: []*T{r.newRef()}}
	case *ssa.Slice:
		st.env[x] = r.sliceOp(st, x)
	case *ssa.SliceToArrayPointer:
		s := r.val(st, x.X)
		if !s.C[1].IsConst() || s.C[1].I.Sign() != 0 {
			unsup("slice to array pointer with offset")
		}
		st.env[x] = Val{C: []*T{s.C[0]}}
	case *ssa.Store:
		p := r.val(st, x.Addr)
		et := under(x.Addr.Type()).(*types.Pointer).Elem()
		if p.Loc == nil {
			r.nonNil(st, p.one(), r.ppos(in), "store")
			p = Val{C: []*T{r.stripNil(p.one())}}
		}
		r.frameCheck(st, p, r.ppos(in))
		r.store(st, p, et, r.val(st, x.Val))
	case *ssa.Call:
		res := r.call(fr, st, &x.Call, x, r.ppos(in))
		st.env[x] = res
	case *ssa.Defer:
		d := deferRec{cond: st.pc, call: &x.Call, instr: x}
		for _, a := range x.Call.Args {
			d.args = append(d.args, r.val(st, a))
		}
		if _, isb := x.Call.Value.(*ssa.Builtin); !isb {
			d.fv = r.val(st, x.Call.Value)
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			// guarded execution
			sub := st.fork(d.cond, c)
			if sub.pc.IsFalse() {
				continue
			}
			oldpc := sub.pc
			r.callDeferred(fr, sub, d, r.ppos(in))
			if c.Implies(st.pc, d.cond).IsTrue() {
				st.heaps = sub.heaps
			} else {
				st.heaps = r.mergeHeaps(oldpc, sub.heaps, st.heaps)
			}
		}
	case *ssa.Go:
		unsup("goroutine at %s", r.ppos(in))
	case *ssa.Send, *ssa.Select:
		unsup("channel operation at %s", r.ppos(in))
	case *ssa.Range:
		st.env[x] = r.rangeInit(st, x)
	case *ssa.Next:
		st.env[x] = r.rangeNext(st, x)
	default:
		unsup("instruction %T %s at %s", in, in, r.ppos(in))
	}
}

func (r *Run) callDeferred(fr *Frame, st *State, d deferRec, where string) {
	if b, ok := d.call.Value.(*ssa.Builtin); ok {
		if b.Name() == "recover" {
			return
		}
		unsup("deferred builtin %s", b.Name())
	}
	if d.call.IsInvoke() {
		r.invoke(fr, st, d.call, d.fv, d.args, where, nil)
		return
	}
	if callee := d.call.StaticCallee(); callee != nil {
		var binds []Val
		if cl := r.closureOf(d.fv); cl != nil {
			binds = cl.Bind
		}
		r.callStatic(fr, st, callee, d.args, binds, where, nil)
		return
	}
	r.callDyn(fr, st, d.fv, d.args, d.call.Signature(), where)
}

func (r *Run) closureOf(v Val) *Closure {
	if len(v.C) == 1 && v.C[0].IsConst() && v.C[0].I.IsInt64() {
		i := v.C[0].I.Int64()
		if i >= 1 && int(i) <= len(r.funcs) {
			return r.funcs[i-1]
		}
	}
	return nil
}

func (r *Run) checkPtrConv(a, b types.Type) {
	pa, ok1 := under(a).(*types.Pointer)
	pb, ok2 := under(b).(*types.Pointer)
	if ok1 && ok2 && isStruct(pa.Elem()) && tkey(pa.Elem()) != tkey(pb.Elem()) {
		unsup("pointer conversion between struct types %s -> %s", a, b)
	}
}

func fieldName(t types.Type, i int) string { return under(t).(*types.Struct).Field(i).Name() }

func (r *Run) field(v Val, t types.Type, i int) Val {
	u := under(t).(*types.Struct)
	k := 0
	for j := 0; j < i; j++ {
		k += len(r.flat(u.Field(j).Type()))
	}
	n := len(r.flat(u.Field(i).Type()))
	return Val{C: v.C[k : k+n]}
}

func (r *Run) fieldAddr(ref *T, t types.Type, i int) Val {
	u := under(t).(*types.Struct)
	f := u.Field(i)
	if isStruct(f.Type()) || isArray(f.Type()) || isBig(f.Type()) {
		return Val{C: []*T{r.sub(ref, t, i, f.Name())}}
	}
	return Val{Loc: &Loc{Key: fieldKey(t, f.Name()), Ref: ref, T: f.Type()}}
}

func (r *Run) inBounds(st *State, idx, n *T, where string) {
	c := r.c
	r.obligation(st, "safety", "index-in-range", where, c.And(c.Le(c.Zero, idx), c.Lt(idx, n)))
}

func (r *Run) index(st *State, x *ssa.Index) Val {
	v := r.val(st, x.X)
	i := r.val(st, x.Index).one()
	switch u := under(x.X.Type()).(type) {
	case *types.Array:
		r.inBounds(st, i, r.c.I64(u.Len()), r.ppos(x))
		var out Val
		lfs := r.flat(u.Elem())
		for k, row := range v.C {
			e := r.c.Select(row, i)
			r.typeFacts(st, e, lfs[k], nil)
			out.C = append(out.C, e)
		}
		return out
	case *types.Basic: // string
		r.inBounds(st, i, r.strlen(st, v.one()), r.ppos(x))
		return Val{C: []*T{r.strat(v.one(), i)}}
	}
	unsup("index of %s", x.X.Type())
	return Val{}
}

func (r *Run) strlen(st *State, s *T) *T {
	if s.IsConst() && s.I.IsInt64() {
		i := s.I.Int64()
		if i == 0 {
			return r.c.Zero
		}
		if i >= 1 && int(i) <= len(r.strVals) {
			return r.c.I64(int64(len(r.strVals[i-1])))
		}
	}
	if s.Op == "ite" {
		return r.c.Ite(s.Args[0], r.strlen(st, s.Args[1]), r.strlen(st, s.Args[2]))
	}
	t := r.c.App("strlen", smt.Int, s)
	r.bound(t, new(big.Int), maxLen)
	r.assumeAbs(r.c.Eq(r.c.Eq(s, r.c.Zero), r.c.Eq(t, r.c.Zero)))
	return t
}

func (r *Run) strat(s, i *T) *T {
	if s.IsConst() && i.IsConst() && s.I.IsInt64() && i.I.IsInt64() {
		k := s.I.Int64()
		if k >= 1 && int(k) <= len(r.strVals) {
			sv := r.strVals[k-1]
			if j := i.I.Int64(); j >= 0 && j < int64(len(sv)) {
				return r.c.I64(int64(sv[j]))
			}
		}
	}
	t := r.c.App("strat", smt.Int, s, i)
	r.bound(t, new(big.Int), big.NewInt(255))
	return t
}

func (r *Run) indexAddr(st *State, x *ssa.IndexAddr) Val {
	v := r.val(st, x.X)
	i := r.val(st, x.Index).one()
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		r.inBounds(st, i, v.C[2], r.ppos(x))
		return r.elemAddr(v.C[0], r.c.Add(v.C[1], i), u.Elem())
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		r.inBounds(st, i, r.c.I64(at.Len()), r.ppos(x))
		r.nonNil(st, v.one(), r.ppos(x), "array")
		return r.elemAddr(r.stripNil(v.one()), i, at.Elem())
	}
	unsup("indexaddr of %s", x.X.Type())
	return Val{}
}

func (r *Run) elemAddr(base, idx *T, et types.Type) Val {
	if isStruct(et) || isArray(et) || isBig(et) {
		return Val{C: []*T{r.elem(base, idx, et)}}
	}
	return Val{Loc: &Loc{Key: elemKey(et), Ref: base, Idx: idx, T: et}}
}

func (r *Run) loadElem(st *State, s Val, i *T, et types.Type) Val {
	a := r.elemAddr(s.C[0], r.c.Add(s.C[1], i), et)
	return r.load(st, a, et)
}

func (r *Run) unop(st *State, x *ssa.UnOp) Val {
	v := r.val(st, x.X)
	switch x.Op {
	case token.MUL:
		et := under(x.X.Type()).(*types.Pointer).Elem()
		if v.Loc == nil {
			r.nonNil(st, v.one(), r.ppos(x), "load")
			v = Val{C: []*T{r.stripNil(v.one())}}
		}
		lv := r.load(st, v, et)
		if len(lv.C) == 2 && !lv.C[0].IsConst() && !isErrIface(et) {
			lv = r.concreteIface(st, et, lv)
		}
		return lv
	case token.SUB:
		if isFloat(x.Type()) {
			return Val{C: []*T{r.c.App("fneg", smt.Int, v.one())}}
		}
		return Val{C: []*T{r.wrap(r.c.Neg(v.one()), x.Type())}}
	case token.NOT:
		return Val{C: []*T{r.c.Not(v.one())}}
	case token.XOR:
		b := under(x.Type()).(*types.Basic)
		bits, signed := intBits(b)
		if signed {
			return Val{C: []*T{r.c.Sub(r.c.I64(-1), v.one())}}
		}
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
		return Val{C: []*T{r.c.Sub(r.c.Big(m), v.one())}}
	}
	unsup("unop %s", x)
	return Val{}
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// wrap reduces t into the range of integer type typ.
func (r *Run) wrap(t *T, typ types.Type) *T {
	lo, hi, ok := intRange(typ)
	if !ok {
		return t
	}
	c := r.c
	tl, th := c.Bounds(t)
	if tl != nil && th != nil && tl.Cmp(lo) >= 0 && th.Cmp(hi) <= 0 {
		return t
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	if tl != nil && th != nil {
		// single wrap?
		if tl.Cmp(new(big.Int).Sub(lo, m)) >= 0 && th.Cmp(new(big.Int).Add(hi, m)) <= 0 {
			res := t
			if th.Cmp(hi) > 0 {
				res = c.Ite(c.Le(t, c.Big(hi)), res, c.Sub(t, c.Big(m)))
			}
			if tl.Cmp(lo) < 0 {
				res = c.Ite(c.Le(c.Big(lo), t), res, c.Add(t, c.Big(m)))
			}
			c.SetBounds(res, lo, hi)
			return res
		}
	}
	if lo.Sign() == 0 {
		return c.Mod(t, c.Big(m))
	}
	res := c.Add(c.Mod(c.Sub(t, c.Big(lo)), c.Big(m)), c.Big(lo))
	return res
}

func (r *Run) convert(st *State, v Val, from, to types.Type, where string) Val {
	c := r.c
	fb, fok := under(from).(*types.Basic)
	tb, tok := under(to).(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return Val{C: []*T{r.wrap(v.one(), to)}}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsFloat != 0 || tb.Info()&types.IsFloat != 0:
			t := c.App(fmt.Sprintf("conv.%s.%s", fb.Name(), tb.Name()), smt.Int, v.one())
			if tb.Info()&types.IsInteger != 0 {
				lo, hi, _ := intRange(to)
				r.bound(t, lo, hi)
				if x := v.one(); x.Op == "app" && x.Name == "dur.seconds" {
					// a whole number of seconds converts exactly
					d := x.Args[0]
					q, m := r.edm(d, c.I64(1000000000))
					fits := c.Eq(m, c.Zero)
					if tb.Info()&types.IsUnsigned != 0 {
						fits = c.And(fits, c.Le(c.Zero, d))
					}
					r.assumeAbs(c.Implies(fits, c.Eq(t, q)))
				}
			}
			r.note("floating-point conversion treated as an uninterpreted function")
			return Val{C: []*T{t}}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			t := c.App("conv.rune.string", smt.Int, v.one())
			r.bound(t, new(big.Int), nil)
			return Val{C: []*T{t}}
		}
	}
	// string <-> []byte
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := under(to).(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return r.strToBytes(st, v.one())
			}
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := under(from).(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return Val{C: []*T{r.bytesToStr(st, v)}}
			}
		}
	}
	if _, ok := under(to).(*types.Pointer); ok {
		r.checkPtrConv(from, to)
		return v
	}
	unsup("conversion %s -> %s at %s", from, to, where)
	return Val{}
}

func (r *Run) strToBytes(st *State, s *T) Val {
	c := r.c
	n := r.strlen(st, s)
	base := r.newRef()
	srt := smt.ArrSort(smt.Int, smt.Int)
	var row *T
	if n.IsConst() && n.I.IsInt64() && n.I.Int64() <= 80 {
		row = c.ConstArr(srt, c.Zero)
		for i := int64(0); i < n.I.Int64(); i++ {
			row = c.Store(row, c.I64(i), r.strat(s, c.I64(i)))
		}
	} else {
		row = c.App("strrow", srt, s)
		x := c.BoundVar("i", smt.Int)
		r.assumeAbs(c.Forall([]*T{x}, c.Eq(c.Select(row, x), c.App("strat", smt.Int, s, x)), []*T{c.Select(row, x)}))
	}
	r.heapSet(st, "e:uint8#0", srt, base, row)
	r.bytesPure(row)
	return Val{C: []*T{c.Ite(c.Eq(n, c.Zero), base, base), c.Zero, n, n}}
}

func (r *Run) bytesPure(row *T) {}

// bytesToStr: string with the content of a byte slice.
func (r *Run) bytesToStr(st *State, v Val) *T {
	c := r.c
	srt := smt.ArrSort(smt.Int, smt.Int)
	row := c.Select(r.heap(st, "e:uint8#0", srt), v.C[0])
	return r.mkStr(row, v.C[1], v.C[2])
}

func (r *Run) mkStr(row, off, n *T) *T {
	c := r.c
	if n.IsConst() && n.I.Sign() == 0 {
		return c.Zero
	}
	// literal reconstruction
	if row.Op == "app" && row.Name == "strrow" && off == c.Zero && n == c.App("strlen", smt.Int, row.Args[0]) {
		return row.Args[0]
	}
	app := c.App("mkstr", smt.Int, row, off, n)
	if t := r.strSym[app.ID]; t != nil {
		return t
	}
	t := app
	if !app.Bound {
		// a name of its own keeps the triggers below free of connectives
		t = c.Sym("str", smt.Int)
		r.bound(t, new(big.Int), nil)
		r.assumeAbs(c.Eq(t, app))
	}
	if r.strSym == nil {
		r.strSym = map[int]*T{}
	}
	r.strSym[app.ID] = t
	if r.strDef == nil {
		r.strDef = map[int]*T{}
	}
	r.strDef[t.ID] = app
	r.bound(t, new(big.Int), nil)
	r.assumeAbs(c.Eq(c.App("strlen", smt.Int, t), n))
	r.assumeAbs(c.Eq(c.Eq(t, c.Zero), c.Eq(n, c.Zero)))
	if n.IsConst() && n.I.IsInt64() && n.I.Int64() <= 40 {
		for i := int64(0); i < n.I.Int64(); i++ {
			r.assumeAbs(c.Eq(c.App("strat", smt.Int, t, c.I64(i)), c.Select(row, c.Add(off, c.I64(i)))))
		}
	} else {
		x := c.BoundVar("i", smt.Int)
		r.assumeAbs(c.Forall([]*T{x}, c.Implies(c.And(c.Le(c.Zero, x), c.Lt(x, n)),
			c.Eq(c.App("strat", smt.Int, t, x), c.Select(row, c.Add(off, x)))), []*T{c.App("strat", smt.Int, t, x)}))
	}
	return t
}

// strEq: extensional equality of strings.
func (r *Run) strEq(a, b *T) *T {
	c := r.c
	e := c.Eq(a, b)
	if e.IsTrue() || e.IsFalse() {
		return e
	}
	if a.Bound || b.Bound {
		return e
	}
	key := fmt.Sprintf("streq%d,%d", a.ID, b.ID)
	if !r.axioms[key] {
		r.axioms[key] = true
		if da, db := r.strDef[a.ID], r.strDef[b.ID]; da != nil && db != nil && da.Args[2] == db.Args[2] && da.Args[2].IsConst() && da.Args[2].I.Cmp(big.NewInt(1024)) <= 0 {
			// contents of one constant length: compare byte by byte
			var es []*T
			for i := int64(0); i < da.Args[2].I.Int64(); i++ {
				es = append(es, c.Eq(c.Select(da.Args[0], c.Add(da.Args[1], c.I64(i))), c.Select(db.Args[0], c.Add(db.Args[1], c.I64(i)))))
			}
			r.assumeAbs(c.Implies(c.And(es...), e))
			return e
		}
		d := c.App("strdiff", smt.Int, a, b)
		la, lb := r.strlen(nil, a), r.strlen(nil, b)
		r.assumeAbs(c.Or(e, c.Not(c.Eq(la, lb)), c.And(c.Le(c.Zero, d), c.Lt(d, la), c.Not(c.Eq(r.strat(a, d), r.strat(b, d))))))
	}
	return e
}

func (r *Run) mkIface(v Val, t types.Type) Val {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	if v.Loc != nil {
		unsup("interface holding interior pointer")
	}
	tag := r.typeTag(t)
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return Val{C: []*T{tag, v.C[0]}}
	}
	// box by an injective function
	name := "inj.box." + tkey(t)
	if len(v.C) == 0 {
		return Val{C: []*T{tag, r.c.One}}
	}
	t2 := r.c.App(name, smt.Int, v.C...)
	key := fmt.Sprintf("box%d", t2.ID)
	if !r.axioms[key] {
		r.axioms[key] = true
		for k, x := range v.C {
			r.assumeAbs(r.c.Eq(r.c.App(fmt.Sprintf("unbox%d.%s", k, tkey(t)), x.Sort, t2), x))
		}
		r.assumeAbs(r.c.Le(r.c.One, t2))
	}
	return Val{C: []*T{tag, t2}}
}

func (r *Run) unbox(st *State, data *T, t types.Type) Val {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return Val{C: []*T{data}}
	}
	name := "inj.box." + tkey(t)
	if data.Op == "app" && data.Name == name {
		return Val{C: data.Args}
	}
	if data.Op == "ite" {
		a, b := r.unbox(st, data.Args[1], t), r.unbox(st, data.Args[2], t)
		m, ok := mergeVals(r.c, data.Args[0], a, b)
		if ok {
			return m
		}
	}
	var out Val
	for k, lf := range r.flat(t) {
		u := r.c.App(fmt.Sprintf("unbox%d.%s", k, tkey(t)), lf.Sort, data)
		r.typeFacts(st, u, lf, nil)
		out.C = append(out.C, u)
	}
	return out
}

func (r *Run) typeAssert(st *State, x *ssa.TypeAssert) Val {
	v := r.val(st, x.X)
	c := r.c
	var ok *T
	var res Val
	if _, isI := under(x.AssertedType).(*types.Interface); isI {
		it := under(x.AssertedType).(*types.Interface)
		ok = r.implementsTerm(v.C[0], it)
		res = v
	} else {
		ok = c.Eq(v.C[0], r.typeTag(x.AssertedType))
		res = r.unbox(st, v.C[1], x.AssertedType)
	}
	if !x.CommaOk {
		r.obligation(st, "safety", "type-assert", r.ppos(x), ok)
		return res
	}
	z := r.zero(x.AssertedType)
	m, mok := mergeVals(c, ok, res, z)
	if !mok {
		unsup("type assert merge")
	}
	return Val{Parts: []Val{m, {C: []*T{ok}}}}
}

func (r *Run) implementsTerm(tag *T, it *types.Interface) *T {
	c := r.c
	if tag.IsConst() {
		i := tag.I.Int64()
		if i == 0 {
			return c.False
		}
		if i >= 1 && int(i) <= len(r.tagType) {
			return c.B(types.Implements(r.tagType[i-1], it))
		}
	}
	if tag.Op == "ite" {
		return c.Ite(tag.Args[0], r.implementsTerm(tag.Args[1], it), r.implementsTerm(tag.Args[2], it))
	}
	return c.And(c.Not(c.Eq(tag, c.Zero)), c.Eq(c.App("impl."+tkey(it), smt.Int, tag), c.One))
}

// ---- maps

func mapSorts(r *Run, mt *types.Map) (kkey string, ksort string, vl []Leaf) {
	kl := r.flat(mt.Key())
	if len(kl) != 1 || kl[0].Role == RArr {
		// interface / struct keys: encode injectively as Int
		ksort = smt.Int
	} else {
		ksort = kl[0].Sort
	}
	vl = r.flat(mt.Elem())
	kkey = "m:" + tkey(under2(mt.Key())) + "|" + tkey(mt.Elem())
	return
}

func (r *Run) mapKey(k Val, mt *types.Map) *T {
	kl := r.flat(mt.Key())
	if len(kl) == 1 && kl[0].Role != RArr {
		return k.C[0]
	}
	name := "inj.key." + tkey(mt.Key())
	// arrays by their elements: what lies beyond an array's length is no part of the key
	var cs []*T
	for i, lf := range kl {
		if lf.Role != RArr {
			cs = append(cs, k.C[i])
			continue
		}
		if lf.N > 64 {
			unsup("map key with an array of %d elements", lf.N)
		}
		for j := int64(0); j < lf.N; j++ {
			cs = append(cs, r.c.Select(k.C[i], r.c.I64(j)))
		}
	}
	k = Val{C: cs}
	t := r.c.App(name, smt.Int, k.C...)
	key := fmt.Sprintf("key%d", t.ID)
	if !r.axioms[key] {
		r.axioms[key] = true
		for i, x := range k.C {
			r.assumeAbs(r.c.Eq(r.c.App(fmt.Sprintf("unkey%d.%s", i, tkey(mt.Key())), x.Sort, t), x))
		}
	}
	return t
}

func (r *Run) mapInit(st *State, ref *T, mt *types.Map) {
	kk, ks, vl := mapSorts(r, mt)
	c := r.c
	ds := smt.ArrSort(ks, smt.Bool)
	r.heapSet(st, kk+"#dom", ds, ref, c.ConstArr(ds, c.False))
	for i, lf := range vl {
		vs := smt.ArrSort(ks, lf.Sort)
		r.heapSet(st, fmt.Sprintf("%s#%d", kk, i), vs, ref, c.ConstArr(vs, r.zeroLeaf(lf)))
	}
	r.heapSet(st, kk+"#len", smt.Int, ref, c.Zero)
}

func (r *Run) mapGet(st *State, m *T, mt *types.Map, key *T) (Val, *T) {
	kk, ks, vl := mapSorts(r, mt)
	c := r.c
	dom := c.Select(r.heap(st, kk+"#dom", smt.ArrSort(ks, smt.Bool)), m)
	has := c.And(c.Not(c.Eq(m, c.Zero)), c.Select(dom, key))
	var out Val
	for i, lf := range vl {
		row := c.Select(r.heap(st, fmt.Sprintf("%s#%d", kk, i), smt.ArrSort(ks, lf.Sort)), m)
		v := c.Select(row, key)
		r.typeFacts(st, v, lf, nil)
		out.C = append(out.C, v)
	}
	r.shapeAll(st, out, mt.Elem())
	return out, has
}

func (r *Run) lookup(st *State, x *ssa.Lookup) Val {
	v := r.val(st, x.X)
	if mt, ok := under(x.X.Type()).(*types.Map); ok {
		k := r.mapKey(r.val(st, x.Index), mt)
		val, has := r.mapGet(st, v.one(), mt, k)
		z := r.zero(mt.Elem())
		m, _ := mergeVals(r.c, has, val, z)
		if x.CommaOk {
			return Val{Parts: []Val{m, {C: []*T{has}}}}
		}
		return m
	}
	i := r.val(st, x.Index).one()
	r.inBounds(st, i, r.strlen(st, v.one()), r.ppos(x))
	return Val{C: []*T{r.strat(v.one(), i)}}
}

func (r *Run) mapUpdate(st *State, m Val, mt *types.Map, k, v Val, where string) {
	ref := m.one()
	c := r.c
	r.nonNil(st, ref, where, "map write")
	r.frameCheck(st, m, where)
	kk, ks, vl := mapSorts(r, mt)
	key := r.mapKey(k, mt)
	dom := c.Select(r.heap(st, kk+"#dom", smt.ArrSort(ks, smt.Bool)), ref)
	has := c.Select(dom, key)
	r.heapSet(st, kk+"#dom", smt.ArrSort(ks, smt.Bool), ref, c.Store(dom, key, c.True))
	for i, lf := range vl {
		hs := smt.ArrSort(ks, lf.Sort)
		row := c.Select(r.heap(st, fmt.Sprintf("%s#%d", kk, i), hs), ref)
		r.heapSet(st, fmt.Sprintf("%s#%d", kk, i), hs, ref, c.Store(row, key, v.C[i]))
	}
	ln := r.mapLen(st, ref, mt)
	r.heapSet(st, kk+"#len", smt.Int, ref, c.Ite(has, ln, c.Add(ln, c.One)))
}

func (r *Run) mapDelete(st *State, m Val, mt *types.Map, k Val, where string) {
	ref := m.one()
	c := r.c
	r.frameCheck(st, m, where)
	kk, ks, _ := mapSorts(r, mt)
	key := r.mapKey(k, mt)
	ds := smt.ArrSort(ks, smt.Bool)
	dom := c.Select(r.heap(st, kk+"#dom", ds), ref)
	has := c.Select(dom, key)
	r.heapSet(st, kk+"#dom", ds, ref, c.Store(dom, key, c.False))
	ln := r.mapLen(st, ref, mt)
	r.heapSet(st, kk+"#len", smt.Int, ref, c.Ite(has, c.Sub(ln, c.One), ln))
}

func (r *Run) mapLen(st *State, ref *T, mt *types.Map) *T {
	kk, _, _ := mapSorts(r, mt)
	t := r.c.Select(r.heap(st, kk+"#len", smt.Int), ref)
	if t.Op == "select" {
		r.bound(t, new(big.Int), maxLen)
	}
	return r.c.Ite(r.c.Eq(ref, r.c.Zero), r.c.Zero, t)
}

// ---- slices

func (r *Run) makeSlice(st *State, t types.Type, n, cp *T, where string) Val {
	c := r.c
	et := under(t).(*types.Slice).Elem()
	r.obligation(st, "safety", "makeslice-len", where, c.And(c.Le(c.Zero, n), c.Le(n, cp)))
	base := r.newRef()
	if isStruct(et) || isArray(et) || isBig(et) {
		r.zeroElemsAny(st, base, cp, et)
	} else {
		for k, lf := range r.flat(et) {
			rs := smt.ArrSort(smt.Int, lf.Sort)
			r.heapSet(st, fmt.Sprintf("%s#%d", elemKey(et), k), rs, base, c.ConstArr(rs, r.zeroLeaf(lf)))
		}
	}
	return Val{C: []*T{base, c.Zero, n, cp}}
}

func (r *Run) zeroElemsAny(st *State, base, n *T, et types.Type) {
	if n.IsConst() && n.I.IsInt64() && n.I.Int64() <= 64 {
		for i := int64(0); i < n.I.Int64(); i++ {
			r.storeRefAlloc(st, r.elem(base, r.c.I64(i), et), et)
		}
		return
	}
	// symbolic: new heap equal to the old one except zero at elem(base, i)
	r.bulkElems(st, base, et, func(lf Leaf, i *T, old *T) *T { return r.zeroLeaf(lf) }, r.c.Zero, n)
}

// bulkElems rewrites all leaf heaps of aggregate elements elem(base,i), lo<=i<hi.
func (r *Run) bulkElems(st *State, base *T, et types.Type, f func(lf Leaf, i *T, old *T) *T, lo, hi *T) {
	unsup("bulk initialisation of symbolic-length aggregate slice of %s", et)
}

func (r *Run) sliceOp(st *State, x *ssa.Slice) Val {
	c := r.c
	v := r.val(st, x.X)
	get := func(s ssa.Value) *T {
		if s == nil {
			return nil
		}
		return r.val(st, s).one()
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = c.Zero
	}
	where := r.ppos(x)
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		if hi == nil {
			hi = v.C[2]
		}
		cp := v.C[3]
		if mx == nil {
			mx = cp
		}
		r.obligation(st, "safety", "slice-bounds", where, c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, cp)))
		return Val{C: []*T{v.C[0], c.Add(v.C[1], lo), c.Sub(hi, lo), c.Sub(mx, lo)}}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		n := c.I64(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		r.nonNil(st, v.one(), where, "slice of array")
		r.obligation(st, "safety", "slice-bounds", where, c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)))
		return Val{C: []*T{v.one(), lo, c.Sub(hi, lo), c.Sub(mx, lo)}}
	case *types.Basic:
		n := r.strlen(st, v.one())
		if hi == nil {
			hi = n
		}
		r.obligation(st, "safety", "slice-bounds", where, c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, n)))
		return Val{C: []*T{r.substr(v.one(), lo, hi)}}
	}
	unsup("slice of %s", x.X.Type())
	return Val{}
}

func (r *Run) substr(s, lo, hi *T) *T {
	c := r.c
	if s.IsConst() && lo.IsConst() && hi.IsConst() {
		k := s.I.Int64()
		if k == 0 {
			return s
		}
		if int(k) <= len(r.strVals) {
			sv := r.strVals[k-1]
			a, b := lo.I.Int64(), hi.I.Int64()
			if a >= 0 && a <= b && b <= int64(len(sv)) {
				return r.strID(sv[a:b])
			}
		}
	}
	t := c.App("substr", smt.Int, s, lo, hi)
	key := fmt.Sprintf("substr%d", t.ID)
	if !r.axioms[key] {
		r.axioms[key] = true
		r.bound(t, new(big.Int), nil)
		n := c.Sub(hi, lo)
		ok := c.And(c.Le(c.Zero, lo), c.Le(lo, hi))
		r.assumeAbs(c.Implies(ok, c.Eq(c.App("strlen", smt.Int, t), n)))
		r.assumeAbs(c.Implies(ok, c.Eq(c.Eq(t, c.Zero), c.Eq(n, c.Zero))))
		if n.IsConst() && n.I.IsInt64() && n.I.Int64() <= 70 {
			for i := int64(0); i < n.I.Int64(); i++ {
				r.assumeAbs(c.Eq(c.App("strat", smt.Int, t, c.I64(i)), c.App("strat", smt.Int, s, c.Add(lo, c.I64(i)))))
			}
		} else {
			x := c.BoundVar("i", smt.Int)
			r.assumeAbs(c.Forall([]*T{x}, c.Implies(c.And(c.Le(c.Zero, x), c.Lt(x, n)),
				c.Eq(c.App("strat", smt.Int, t, x), c.App("strat", smt.Int, s, c.Add(lo, x)))), []*T{c.App("strat", smt.Int, t, x)}))
		}
	}
	return t
}

var debug = os.Getenv("GOVC_DEBUG") != ""

// row reads the element row(s) of a slice of scalar leaves.
func (r *Run) rows(st *State, base *T, et types.Type) []*T {
	var out []*T
	for k, lf := range r.flat(et) {
		out = append(out, r.c.Select(r.heap(st, fmt.Sprintf("%s#%d", elemKey(et), k), smt.ArrSort(smt.Int, lf.Sort)), base))
	}
	return out
}

func (r *Run) setRows(st *State, base *T, et types.Type, rows []*T) {
	for k, lf := range r.flat(et) {
		r.heapSet(st, fmt.Sprintf("%s#%d", elemKey(et), k), smt.ArrSort(smt.Int, lf.Sort), base, rows[k])
	}
}

// spliceRow: dst with n elements at dOff replaced by src[sOff..].
func (r *Run) spliceRow(dst, dOff, src, sOff, n *T) *T {
	c := r.c
	if n.IsConst() && n.I.Sign() <= 0 {
		return dst
	}
	if n.IsConst() && n.I.IsInt64() && n.I.Int64() <= 72 {
		out := dst
		for i := int64(0); i < n.I.Int64(); i++ {
			k := c.I64(i)
			out = c.Store(out, c.Add(dOff, k), c.Select(src, c.Add(sOff, k)))
		}
		return out
	}
	nr := c.App(fmt.Sprintf("splice.%s", dst.Sort), dst.Sort, dst, dOff, src, sOff, n)
	key := fmt.Sprintf("spl%d", nr.ID)
	if !nr.Bound {
		// a plain name keeps the trigger below free of interpreted symbols
		if s, ok := r.subM[key]; ok {
			return s
		}
		s := c.Sym("splice", dst.Sort)
		r.subM[key] = s
		nr = s
	}
	if !r.axioms[key] {
		r.axioms[key] = true
		x := c.BoundVar("i", smt.Int)
		in := c.And(c.Le(dOff, x), c.Lt(x, c.Add(dOff, n)))
		sel := c.Builtin("select", c.Select(dst, c.Zero).Sort, nr, x)
		r.assumeAbs(c.Forall([]*T{x}, c.Eq(c.Select(nr, x), c.Ite(in, c.Select(src, c.Add(sOff, c.Sub(x, dOff))), c.Select(dst, x))), []*T{sel}))
		if nr.Op == "sym" {
			if c.Splices == nil {
				c.Splices = map[int][]*T{}
			}
			c.Splices[nr.ID] = []*T{dst, dOff, src, sOff, n}
		}
	}
	return nr
}
