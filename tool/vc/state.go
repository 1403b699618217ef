package vc

import (
	"fmt"
	"go/types"
	"math/big"
	"sync"

	"golang.org/x/tools/go/ssa"

	"govc/smt"
)

type T = smt.T

// State is the symbolic state at a program point of one frame.
type State struct {
	pc    *T // relative to frame entry
	env   map[ssa.Value]Val
	heaps map[string]*T
	dead  bool
}

func (s *State) fork(cond *T, c *smt.Ctx) *State {
	n := &State{pc: c.And(s.pc, cond), env: make(map[ssa.Value]Val, len(s.env)), heaps: make(map[string]*T, len(s.heaps))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	return n
}

// Obligation to be proved.
type Obl struct {
	Kind  string // ensures, requires, safety, frame, invariant, unwind
	Name  string
	Pos   string
	PC    *T
	Goal  *T
	NFact int
	Run   *Run
	// results
	Status string
	Solver string
	Dur    float64
	Out    string
}

type Closure struct {
	Fn   *ssa.Function
	Bind []Val
}

type Fact struct {
	T *T
}

// Run is one verification task (one contract or lemma harness).
type Run struct {
	E         *Engine
	c         *smt.Ctx
	flats     flatMemo
	heap0     map[string]*T
	bvalDepth int
	hsort     map[string]string
	facts     []*T
	factSet   map[int]bool
	Obls      []*Obl
	nLit      int64 // fresh literal counter
	nGLit     int64
	funcs     []*Closure
	fnIDs     map[string]int64
	tags      map[string]int64
	tagType   []types.Type
	strs      map[string]int64
	strVals   []string
	subM      map[string]*T
	globals   map[*ssa.Global]*T
	ginit     map[*ssa.Global]bool
	axioms    map[string]bool

	ct           *Contract
	params       []Val
	depth        int
	stack        []*Frame
	mute         int // >0: do not record obligations (dry runs)
	quant        int // >0: inside quantifier body
	qfacts       [][]*T
	writes       []*writeRec // when recording
	recording    int
	mods         []*T // allowed refs
	modsSet      bool
	modDescr     []modItem
	inTarget     bool
	mode         string // verify / use
	useCtx       *useCtx
	bounded      int // >0: bound loops at this many iterations without unwinding obligations
	Bounded      bool
	Notes        map[string]bool
	Covers       []*T
	CoverN       []int
	rngSeq       int
	loopInv      map[string]bool
	invPre       *State // state at loop entry while an invariant is evaluated
	deferred     []func()
	maxLit0      int64
	Inlined      map[string]bool
	Trusted      map[string]bool
	UsedCt       map[string]bool
	splits       []split
	specDepth    int
	wit          map[int]*T      // witnesses named for quantified formulas
	qtyped       map[int]*T      // well-typedness of what a quantified formula reads
	hashed       map[string][]*T // contents given to the digest functions so far
	strSym       map[int]*T      // names of byte contents
	pbSym, pbDef map[int]*T
	memKeys      []*T
	ifaces       map[string]Val // last concrete value seen per interface type
	ifaceNo      map[int]bool
	strDef       map[int]*T // and what they name
	specBound    int        // specification calls left folded because their arguments are quantified
	specMemo     map[string]bool
	skipInv      bool
	invMode      string
	heapOverride int
	inGlobalInit int
	initVals     map[int]*T
	bvalTerms    []bvalT
	rowGen       int
	unfolding    int
	specInf      map[*ssa.Function]*specInf
	reqs         []*T
	ensHit       int
	callPC       *T
	nUnknown     int
	smu          sync.Mutex
	InlFns       map[*ssa.Function]bool
}

type writeRec struct {
	key string
	ref *T
}

const (
	freshBase  = -1000000       // fresh literals go down from here
	regionBase = -1000000000000 // objects allocated in abstracted loop iterations / callees lie below
)

func (r *Run) note(f string, a ...interface{}) { r.Notes[fmt.Sprintf(f, a...)] = true }

// ---- facts and obligations

func (r *Run) absPC(st *State) *T {
	p := st.pc
	if n := len(r.stack); n > 0 {
		p = r.c.And(r.stack[n-1].pc0, p)
	}
	return p
}

func (r *Run) assumeAbs(f *T) {
	if f.IsTrue() {
		return
	}
	if f.Bound {
		if len(r.qfacts) > 0 {
			n := len(r.qfacts) - 1
			r.qfacts[n] = append(r.qfacts[n], f)
			return
		}
		return // cannot place; drop (only weakens)
	}
	if r.factSet[f.ID] {
		return
	}
	r.factSet[f.ID] = true
	r.facts = append(r.facts, f)
}

// assume adds a fact valid under the state's path condition.
func (r *Run) assume(st *State, f *T) {
	if f.IsTrue() {
		return
	}
	r.assumeAbs(r.c.Implies(r.absPC(st), f))
}

// split: a case distinction the harness asked for (zv.Split).
type split struct {
	t      *T
	lo, hi int64
}

func (r *Run) obligation(st *State, kind, name, pos string, goal *T) {
	if goal.IsTrue() || r.mute > 0 {
		if r.mute == 0 {
			r.E.trivial++
		}
		if goal.IsTrue() && (kind == "ensures" || kind == "invariant" || kind == "requires") && r.mute == 0 {
			r.Obls = append(r.Obls, &Obl{Kind: kind, Name: name, Pos: pos, PC: r.c.True, Goal: goal, NFact: len(r.facts), Run: r, Status: "trivial"})
		}
		return
	}
	pc := r.absPC(st)
	if pc.IsFalse() {
		return
	}
	if r.quant > 0 {
		// inside a quantified specification: definedness is not an obligation
		return
	}
	if r.c.Implies(pc, goal).IsTrue() {
		return
	}
	pcs := []*T{pc}
	if kind == "ensures" || kind == "invariant" {
		for _, sp := range r.splits {
			var n []*T
			for _, p := range pcs {
				for v := sp.lo; v < sp.hi; v++ {
					n = append(n, r.c.And(p, r.c.Eq(sp.t, r.c.I64(v))))
				}
				n = append(n, r.c.And(p, r.c.Not(r.c.And(r.c.Le(r.c.I64(sp.lo), sp.t), r.c.Lt(sp.t, r.c.I64(sp.hi))))))
			}
			pcs = n
		}
	}
	for _, p := range pcs {
		if p.IsFalse() {
			continue
		}
		r.Obls = append(r.Obls, &Obl{Kind: kind, Name: name, Pos: pos, PC: p, Goal: goal, NFact: len(r.facts), Run: r})
	}
	r.assume(st, goal)
}

// ---- heaps

func (r *Run) heap(st *State, key, valSort string) *T {
	if h, ok := st.heaps[key]; ok {
		return h
	}
	if h, ok := r.heap0[key]; ok {
		return h
	}
	h := r.c.Sym("H."+key, smt.ArrSort(smt.Int, valSort))
	r.heap0[key] = h
	r.hsort[key] = valSort
	return h
}

func (r *Run) isInitHeap(key string, h *T) bool { return r.heap0[key] == h }

func (r *Run) heapGet(st *State, key string, lf Leaf, ref *T) *T {
	h := r.heap(st, key, lf.Sort)
	v := r.c.Select(h, ref)
	r.typeFacts(st, v, lf, nil)
	return v
}

func (r *Run) heapSet(st *State, key string, srt string, ref, v *T) {
	h := r.heap(st, key, srt)
	if r.recording > 0 {
		r.writes = append(r.writes, &writeRec{key, ref})
	}
	if v.Sort != srt {
		unsup("internal: heap %s sort %s value %s", key, srt, v.Sort)
	}
	st.heaps[key] = r.c.Store(h, ref, v)
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

// typeFacts assumes well-typedness of a leaf term that was read from memory or havoced.
func (r *Run) typeFacts(st *State, v *T, lf Leaf, tup []*T) {
	if v.IsConst() || v.IsTrue() || v.IsFalse() {
		return
	}
	// push into ite structure: facts on the base select/sym terms suffice
	if v.Op == "ite" {
		r.typeFacts(st, v.Args[1], lf, nil)
		r.typeFacts(st, v.Args[2], lf, nil)
		return
	}
	if v.Op != "select" && v.Op != "sym" && v.Op != "app" {
		return
	}
	c := r.c
	switch lf.Role {
	case RInt:
		if lf.T == nil {
			return
		}
		lo, hi, ok := intRange(lf.T)
		if ok {
			r.bound(v, lo, hi)
		}
	case RStr:
		r.bound(v, big.NewInt(0), nil)
		ln := c.App("strlen", smt.Int, v)
		r.bound(ln, big.NewInt(0), maxLen)
		r.assumeAbs(c.Eq(c.Eq(v, c.Zero), c.Eq(ln, c.Zero)))
	case RSOff, RSCap:
		r.bound(v, big.NewInt(0), maxLen)
	case RSLen:
		r.bound(v, big.NewInt(0), maxLen)
	case RRef, RSBase, RIData:
		if v.Bound && r.quant > 0 {
			r.oldRefs(v)
			return // would become a guard that depends on what is allocated so far
		}
		r.refFact(v)
	case RITag:
		r.bound(v, big.NewInt(0), nil)
	case RFunc:
		r.bound(v, big.NewInt(0), nil)
	}
}

// bound registers and assumes lo<=v<=hi (valid for every well-typed heap).
func (r *Run) bound(v *T, lo, hi *big.Int) {
	c := r.c
	key := fmt.Sprintf("bnd%d", v.ID)
	if r.axioms[key] {
		return
	}
	r.axioms[key] = true
	var f1, f2 *T = c.True, c.True
	if lo != nil {
		f1 = c.Le(c.Big(lo), v)
	}
	if hi != nil {
		f2 = c.Le(v, c.Big(hi))
	}
	r.assumeAbs(f1)
	r.assumeAbs(f2)
	// for a quantified term the facts just recorded guard the quantified formula, so its body may
	// be simplified under them
	if !v.Bound || (r.quant > 0 && len(r.qfacts) > 0) {
		c.SetBounds(v, lo, hi)
	}
}

// refFact: v is not an object that is allocated only later.
func (r *Run) refFact(v *T) {
	c := r.c
	key := fmt.Sprintf("ref%d", v.ID)
	if r.axioms[key] {
		return
	}
	r.axioms[key] = true
	if r.preState(v) {
		r.assumeAbs(c.Le(c.Zero, v))
		if !v.Bound {
			c.SetBounds(v, new(big.Int), nil)
		}
		return
	}
	// not in (regionBase, current literal)
	cur := c.I64(freshBase - r.nLit)
	r.assumeAbs(c.Or(c.Le(cur, v), c.Le(v, c.I64(regionBase))))
}

// oldRefs: the references that the initial memory holds are not to objects allocated since.
func (r *Run) oldRefs(v *T) {
	c := r.c
	depth := 0
	root := v
	for root.Op == "select" {
		root = root.Args[0]
		depth++
	}
	if depth == 0 || depth > 2 || root.Op != "sym" || !r.preState(c.Select(root, c.Zero)) {
		return
	}
	key := fmt.Sprintf("oldrefs%d", root.ID)
	if r.axioms[key] {
		return
	}
	r.axioms[key] = true
	x := c.BoundVar("q", smt.Int)
	vars := []*T{x}
	t := c.Select(root, x)
	if depth == 2 {
		y := c.BoundVar("q", smt.Int)
		vars = append(vars, y)
		t = c.Select(t, y)
	}
	q := r.quant
	r.quant = 0
	r.facts = append(r.facts, c.Forall(vars, c.Le(c.I64(freshBase), t), []*T{t}))
	r.quant = q
}

// preState: term reads only the initial heap and parameters.
func (r *Run) preState(v *T) bool {
	switch v.Op {
	case "sym":
		return v.Sym <= r.rngSeq
	case "select":
		h := v.Args[0]
		if h.Op == "sym" {
			if h.Sym <= r.rngSeq {
				return true
			}
			for _, h0 := range r.heap0 {
				if h0 == h {
					return true
				}
			}
		}
		if h.Op == "select" {
			return r.preState(h)
		}
		return false
	}
	return false
}

// newRef allocates a fresh object.
func (r *Run) newRef() *T {
	if r.inGlobalInit > 0 {
		return r.newGRef()
	}
	r.nLit++
	t := r.c.I64(freshBase - r.nLit)
	return t
}

func (r *Run) newGRef() *T {
	r.nGLit++
	return r.c.I64(-r.nGLit)
}

func (r *Run) axiom(key string, mk func() *T) {
	if r.axioms[key] {
		return
	}
	r.axioms[key] = true
	f := mk()
	r.facts = append(r.facts, f)
}

// kind axioms: literals have kind 0; constructors have positive kinds.
func (r *Run) sub(ref *T, st types.Type, field int, fname string) *T {
	c := r.c
	if ref.Op == "ite" {
		return c.Ite(ref.Args[0], r.sub(ref.Args[1], st, field, fname), r.sub(ref.Args[2], st, field, fname))
	}
	name := "inj.sub." + tkey(st) + "." + fname
	r.injAxiom(name, 1)
	if ref.IsConst() {
		k := name + ref.I.String()
		if t, ok := r.subM[k]; ok {
			return t
		}
		var lit *T
		if ref.I.Sign() > 0 || ref.I.Sign() == 0 {
			lit = c.App(name, smt.Int, ref)
		} else if ref.I.Cmp(big.NewInt(freshBase)) < 0 {
			lit = r.newRef()
		} else {
			lit = r.newGRef()
		}
		r.subM[k] = lit
		// link with the function on symbolic arguments
		r.facts = append(r.facts, c.Eq(r.rawApp(name, ref), lit))
		return lit
	}
	t := c.App(name, smt.Int, ref)
	if lo, _ := c.Bounds(ref); lo != nil && lo.Sign() >= 0 {
		// interior of a pre-state object (offset of nil is never dereferenced)
		key := fmt.Sprintf("subpos%d", t.ID)
		if !r.axioms[key] {
			r.axioms[key] = true
			r.assumeAbs(c.Le(c.One, t))
			if !t.Bound {
				c.SetBounds(t, big.NewInt(1), nil)
			}
		}
	} else {
		r.refFact(t)
	}
	return t
}

func (r *Run) rawApp(name string, args ...*T) *T { return r.c.App(name, smt.Int, args...) }

func (r *Run) elem(base, idx *T, et types.Type) *T {
	c := r.c
	if base.Op == "ite" {
		return c.Ite(base.Args[0], r.elem(base.Args[1], idx, et), r.elem(base.Args[2], idx, et))
	}
	name := "inj.elem." + tkey(et)
	r.injAxiom(name, 2)
	t := c.App(name, smt.Int, base, idx)
	if lo, _ := c.Bounds(base); lo != nil && lo.Sign() >= 0 {
		key := fmt.Sprintf("subpos%d", t.ID)
		if !r.axioms[key] {
			r.axioms[key] = true
			r.assumeAbs(c.Le(c.One, t))
			if !t.Bound {
				c.SetBounds(t, big.NewInt(1), nil)
			}
		}
	} else if base.IsConst() {
		// element of a fresh object: lies in its own region, not a plain literal
		key := fmt.Sprintf("elneg%d", t.ID)
		if !r.axioms[key] {
			r.axioms[key] = true
			hi := big.NewInt(regionBase)
			r.assumeAbs(c.Le(t, c.Big(hi)))
			if !t.Bound {
				c.SetBounds(t, nil, hi)
			}
		}
	} else {
		r.refFact(t)
	}
	return t
}

func (r *Run) injAxiom(name string, arity int) {
	r.axiom("inj:"+name, func() *T {
		c := r.c
		var vs []*T
		for i := 0; i < arity; i++ {
			vs = append(vs, c.BoundVar("x", smt.Int))
		}
		app := c.App(name, smt.Int, vs...)
		var es []*T
		for i := range vs {
			es = append(es, c.Eq(c.App(fmt.Sprintf("inv%d.%s", i, name), smt.Int, app), vs[i]))
		}
		id := r.fnIDs["kind:"+name]
		if id == 0 {
			id = int64(len(r.fnIDs) + 1)
			r.fnIDs["kind:"+name] = id
		}
		es = append(es, c.Eq(c.App("kind", smt.Int, app), c.I64(id)))
		es = append(es, c.Implies(c.Lt(vs[0], c.I64(freshBase)), c.Lt(app, c.I64(freshBase))))
		return c.Forall(vs, c.And(es...), []*T{app})
	})
}

// ---- memory access by type

// cellKey: heap key for a value of (non struct, non array) type t stored in a plain cell.
func cellKey(t types.Type) string { return "c:" + tkey(under2(t)) }
func elemKey(t types.Type) string { return "e:" + tkey(under2(t)) }

// under2 canonicalises named basic types so that []byte-like heaps are shared.
func under2(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Basic:
		return types.Typ[u.Kind()]
	}
	return t
}

func fieldKey(st types.Type, f string) string { return "f:" + tkey(st) + "." + f }

// canonical struct type for heap keys: named type identity.
func (r *Run) load(st *State, p Val, t types.Type) Val {
	if p.Loc != nil {
		return r.loadLoc(st, p.Loc)
	}
	return r.loadRef(st, p.one(), t)
}

func (r *Run) loadLoc(st *State, l *Loc) Val {
	var out Val
	for k, lf := range r.flat(l.T) {
		key := fmt.Sprintf("%s#%d", l.Key, k)
		if l.Idx == nil {
			out.C = append(out.C, r.heapGet(st, key, lf, l.Ref))
		} else {
			h := r.heap(st, key, smt.ArrSort(smt.Int, lf.Sort))
			row := r.c.Select(h, l.Ref)
			v := r.c.Select(row, l.Idx)
			r.typeFacts(st, v, lf, nil)
			out.C = append(out.C, v)
		}
	}
	r.shapeFacts(st, out, l.T)
	return out
}

// shapeFacts: slice well-formedness for composite values (len<=cap etc).
func (r *Run) shapeFacts(st *State, v Val, t types.Type) {
	if isBig(t) {
		return
	}
	switch under(t).(type) {
	case *types.Slice:
		r.sliceFacts(st, v)
	case *types.Interface:
		if !v.C[0].IsConst() {
			r.assume(st, r.c.Implies(r.c.Eq(v.C[0], r.c.Zero), r.c.Eq(v.C[1], r.c.Zero)))
		}
	}
}

func (r *Run) sliceFacts(st *State, v Val) {
	c := r.c
	if v.C[2].IsConst() && v.C[3].IsConst() {
		return
	}
	key := fmt.Sprintf("slf%d,%d,%d,%d", v.C[0].ID, v.C[2].ID, v.C[3].ID, v.C[1].ID)
	if r.axioms[key] && r.quant == 0 {
		return
	}
	if r.quant == 0 {
		r.axioms[key] = true
	}
	f := c.And(c.Le(v.C[2], v.C[3]), c.Implies(c.Eq(v.C[0], c.Zero), c.And(c.Eq(v.C[3], c.Zero), c.Eq(v.C[1], c.Zero))),
		c.Le(c.Add(v.C[1], v.C[3]), c.Big(maxLen)))
	if v.C[0].Bound || v.C[2].Bound {
		r.assumeAbs(f)
		return
	}
	r.assumeAbs(f)
}

func (r *Run) loadRef(st *State, ref *T, t types.Type) Val {
	if isBig(t) {
		return Val{C: []*T{r.heapGet(st, "big", Leaf{Sort: smt.Int, Role: RInt}, ref)}}
	}
	if isZ(t) || isSeq(t) {
		return r.loadLoc(st, &Loc{Key: cellKey(t), Ref: ref, T: t})
	}
	switch u := under(t).(type) {
	case *types.Struct:
		var out Val
		for i := 0; i < u.NumFields(); i++ {
			fv := r.loadField(st, ref, t, i)
			out.C = append(out.C, fv.C...)
		}
		return out
	case *types.Array:
		et := u.Elem()
		if isStruct(et) || isArray(et) || isBig(et) {
			if u.Len() > 256 {
				unsup("load of large array of aggregates %s", t)
			}
			var rows []*T
			for i, lf := range r.flat(et) {
				_ = i
				rows = append(rows, r.c.ConstArr(smt.ArrSort(smt.Int, lf.Sort), r.zeroLeaf(lf)))
			}
			for i := int64(0); i < u.Len(); i++ {
				ev := r.loadRef(st, r.elem(ref, r.c.I64(i), et), et)
				for k := range rows {
					rows[k] = r.c.Store(rows[k], r.c.I64(i), ev.C[k])
				}
			}
			return Val{C: rows}
		}
		var out Val
		for k, lf := range r.flat(et) {
			h := r.heap(st, fmt.Sprintf("%s#%d", elemKey(et), k), smt.ArrSort(smt.Int, lf.Sort))
			out.C = append(out.C, r.c.Select(h, ref))
		}
		return out
	}
	return r.loadLoc(st, &Loc{Key: cellKey(t), Ref: ref, T: t})
}

func (r *Run) loadField(st *State, ref *T, t types.Type, i int) Val {
	u := under(t).(*types.Struct)
	f := u.Field(i)
	ft := f.Type()
	if isStruct(ft) || isArray(ft) || isBig(ft) {
		return r.loadRef(st, r.sub(ref, t, i, f.Name()), ft)
	}
	return r.loadLoc(st, &Loc{Key: fieldKey(t, f.Name()), Ref: ref, T: ft})
}

func (r *Run) store(st *State, p Val, t types.Type, v Val) {
	if p.Loc != nil {
		r.storeLoc(st, p.Loc, v)
		return
	}
	r.storeRef(st, p.one(), t, v)
}

func (r *Run) storeLoc(st *State, l *Loc, v Val) {
	for k, lf := range r.flat(l.T) {
		key := fmt.Sprintf("%s#%d", l.Key, k)
		if l.Idx == nil {
			r.heapSet(st, key, lf.Sort, l.Ref, v.C[k])
		} else {
			rs := smt.ArrSort(smt.Int, lf.Sort)
			row := r.c.Select(r.heap(st, key, rs), l.Ref)
			r.heapSet(st, key, rs, l.Ref, r.c.Store(row, l.Idx, v.C[k]))
		}
	}
}

func (r *Run) storeRef(st *State, ref *T, t types.Type, v Val) {
	if isBig(t) {
		r.heapSet(st, "big", smt.Int, ref, v.C[0])
		return
	}
	if isZ(t) || isSeq(t) {
		r.storeLoc(st, &Loc{Key: cellKey(t), Ref: ref, T: t}, v)
		return
	}
	switch u := under(t).(type) {
	case *types.Struct:
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			n := len(r.flat(f.Type()))
			r.storeField(st, ref, t, i, Val{C: v.C[k : k+n]})
			k += n
		}
		return
	case *types.Array:
		et := u.Elem()
		if isStruct(et) || isArray(et) || isBig(et) {
			if u.Len() > 256 {
				unsup("store of large array of aggregates %s", t)
			}
			for i := int64(0); i < u.Len(); i++ {
				var ev Val
				for _, row := range v.C {
					ev.C = append(ev.C, r.c.Select(row, r.c.I64(i)))
				}
				r.storeRef(st, r.elem(ref, r.c.I64(i), et), et, ev)
			}
			return
		}
		for k, lf := range r.flat(et) {
			r.heapSet(st, fmt.Sprintf("%s#%d", elemKey(et), k), smt.ArrSort(smt.Int, lf.Sort), ref, v.C[k])
		}
		return
	}
	r.storeLoc(st, &Loc{Key: cellKey(t), Ref: ref, T: t}, v)
}

func (r *Run) storeField(st *State, ref *T, t types.Type, i int, v Val) {
	u := under(t).(*types.Struct)
	f := u.Field(i)
	ft := f.Type()
	if isStruct(ft) || isArray(ft) || isBig(ft) {
		r.storeRef(st, r.sub(ref, t, i, f.Name()), ft, v)
		return
	}
	r.storeLoc(st, &Loc{Key: fieldKey(t, f.Name()), Ref: ref, T: ft}, v)
}

func (r *Run) zeroLeaf(lf Leaf) *T {
	switch lf.Role {
	case RBool:
		return r.c.False
	case RArr:
		return r.c.ConstArr(lf.Sort, r.zeroLeaf(*lf.Elem))
	}
	if lf.Sort != smt.Int {
		return r.c.ConstArr(lf.Sort, r.c.Zero)
	}
	return r.c.Zero
}

func (r *Run) zero(t types.Type) Val {
	var v Val
	for _, lf := range r.flat(t) {
		v.C = append(v.C, r.zeroLeaf(lf))
	}
	return v
}

// havoc creates an arbitrary well-typed value.
func (r *Run) havoc(st *State, t types.Type, hint string) Val {
	var v Val
	if tup, ok := t.(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			v.Parts = append(v.Parts, r.havoc(st, tup.At(i).Type(), fmt.Sprintf("%s.%d", hint, i)))
		}
		return v
	}
	for _, lf := range r.flat(t) {
		s := r.c.Sym(hint+"."+lf.Path, lf.Sort)
		r.typeFacts(st, s, lf, nil)
		v.C = append(v.C, s)
	}
	r.shapeAll(st, v, t)
	return v
}

// shapeAll applies shape facts recursively through structs.
func (r *Run) shapeAll(st *State, v Val, t types.Type) {
	if u, ok := under(t).(*types.Struct); ok && isStruct(t) {
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(r.flat(u.Field(i).Type()))
			r.shapeAll(st, Val{C: v.C[k : k+n]}, u.Field(i).Type())
			k += n
		}
		return
	}
	r.shapeFacts(st, v, t)
}

// allocT allocates a zeroed object of type t.
func (r *Run) allocT(st *State, t types.Type) *T {
	ref := r.newRef()
	r.zeroInit(st, ref, t)
	return ref
}

func (r *Run) zeroInit(st *State, ref *T, t types.Type) {
	saved := r.recording
	r.storeRefAlloc(st, ref, t)
	r.recording = saved
}

func (r *Run) storeRefAlloc(st *State, ref *T, t types.Type) {
	if u, ok := under(t).(*types.Array); ok && (isStruct(u.Elem()) || isArray(u.Elem())) {
		// elements zeroed: elementwise for small arrays
		r.zeroElems(st, ref, r.c.Zero, r.c.I64(u.Len()), u.Elem())
		return
	}
	if u, ok := under(t).(*types.Struct); ok && isStruct(t) {
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if isStruct(f.Type()) || isArray(f.Type()) {
				r.storeRefAlloc(st, r.sub(ref, t, i, f.Name()), f.Type())
			} else {
				r.storeField(st, ref, t, i, r.zero(f.Type()))
			}
		}
		return
	}
	r.storeRef(st, ref, t, r.zero(t))
}

// zeroElems zero-initialises elements of a fresh aggregate array/slice.
func (r *Run) zeroElems(st *State, base, lo, n *T, et types.Type) {
	if n.IsConst() && n.I.IsInt64() && n.I.Int64() <= 256 {
		for i := int64(0); i < n.I.Int64(); i++ {
			r.storeRefAlloc(st, r.elem(base, r.c.Add(lo, r.c.I64(i)), et), et)
		}
		return
	}
	// symbolic length: havoc heaps of et at elem refs with zero axiom
	unsup("make of symbolic-length slice of aggregates %s", et)
}

func mergeVals(c *smt.Ctx, cond *T, a, b Val) (Val, bool) {
	if len(a.Parts) > 0 || len(b.Parts) > 0 {
		if len(a.Parts) != len(b.Parts) {
			return Val{}, false
		}
		var out Val
		for i := range a.Parts {
			m, ok := mergeVals(c, cond, a.Parts[i], b.Parts[i])
			if !ok {
				return Val{}, false
			}
			out.Parts = append(out.Parts, m)
		}
		return out, true
	}
	if a.Loc != nil || b.Loc != nil {
		if a.Loc == nil || b.Loc == nil {
			return Val{}, false
		}
		if a.Loc.Key != b.Loc.Key || (a.Loc.Idx == nil) != (b.Loc.Idx == nil) {
			return Val{}, false
		}
		l := &Loc{Key: a.Loc.Key, Ref: c.Ite(cond, a.Loc.Ref, b.Loc.Ref), T: a.Loc.T}
		if a.Loc.Idx != nil {
			l.Idx = c.Ite(cond, a.Loc.Idx, b.Loc.Idx)
		}
		return Val{Loc: l}, true
	}
	if len(a.C) != len(b.C) {
		return Val{}, false
	}
	out := Val{C: make([]*T, len(a.C))}
	for i := range a.C {
		if a.C[i].Sort != b.C[i].Sort {
			return Val{}, false
		}
		out.C[i] = c.Ite(cond, a.C[i], b.C[i])
	}
	return out, true
}
