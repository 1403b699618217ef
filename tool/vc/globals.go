package vc

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// initGlobal gives a package variable the content its initialiser computes, provided
// the variable is assigned only during package initialisation.
func (r *Run) initGlobal(g *ssa.Global, ref *T) {
	if g.Pkg == nil {
		return
	}
	r.E.buildPkg(g.Pkg)
	et := g.Type().(*types.Pointer).Elem()
	initFn := g.Pkg.Func("init")
	if initFn == nil || initFn.Blocks == nil {
		return
	}
	if r.E.mutated(g) {
		r.note("package variable %s is reassigned after init: arbitrary value", g)
		return
	}
	// slice the init function
	need := map[ssa.Instruction]bool{}
	var order []ssa.Instruction
	for _, b := range initFn.Blocks {
		order = append(order, b.Instrs...)
	}
	var addVal func(v ssa.Value)
	var addInstr func(in ssa.Instruction)
	roots := map[ssa.Value]bool{}
	addInstr = func(in ssa.Instruction) {
		if need[in] {
			return
		}
		switch in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Phi:
			return
		}
		need[in] = true
		var ops []*ssa.Value
		for _, o := range in.Operands(ops) {
			if *o != nil {
				addVal(*o)
			}
		}
	}
	addVal = func(v ssa.Value) {
		in, ok := v.(ssa.Instruction)
		if !ok {
			return
		}
		if in.Parent() != initFn {
			return
		}
		addInstr(in)
		switch v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
			if !roots[v] {
				roots[v] = true
				if v.Referrers() != nil {
					for _, ref := range *v.Referrers() {
						switch x := ref.(type) {
						case *ssa.Store, *ssa.MapUpdate:
							addInstr(ref)
						case *ssa.IndexAddr:
							addVal(x)
						case *ssa.FieldAddr:
							addVal(x)
						}
					}
				}
			}
		}
	}
	found := false
	if g.Referrers() == nil {
		// globals have no referrer lists: scan
	}
	for _, in := range order {
		if s, ok := in.(*ssa.Store); ok && s.Addr == g {
			addInstr(s)
			found = true
		}
		// composite initialisation through addresses of the global
		if fa, ok := in.(*ssa.FieldAddr); ok && fa.X == g {
			addVal(fa)
			found = true
		}
		if ia, ok := in.(*ssa.IndexAddr); ok && ia.X == g {
			addVal(ia)
			found = true
		}
	}
	// execute the slice against the initial heap
	saved := r.heapOverride
	st := &State{pc: r.c.True, env: map[ssa.Value]Val{}, heaps: map[string]*T{}}
	savedStack, savedMute, savedMods, savedRec := r.stack, r.mute, r.modsSet, r.recording
	savedQ, savedQF := r.quant, r.qfacts
	r.quant, r.qfacts = 0, nil
	fr := &Frame{fn: initFn, pc0: r.c.True}
	r.stack = []*Frame{fr}
	r.mute++
	r.modsSet = false
	r.recording = 0
	r.inGlobalInit++
	nl := r.nLit
	r.zeroInit(st, ref, et)
	if found {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if u, ok := x.(unsupported); ok {
						r.note("initialiser of %s not evaluated (%s): arbitrary value", g, u.msg)
						st = nil
						return
					}
					panic(x)
				}
			}()
			for _, in := range order {
				if need[in] {
					r.instr(fr, st, in)
				}
			}
		}()
	}
	r.inGlobalInit--
	_ = nl
	r.stack, r.mute, r.modsSet, r.recording = savedStack, savedMute, savedMods, savedRec
	r.quant, r.qfacts = savedQ, savedQF
	r.heapOverride = saved
	if st == nil {
		return
	}
	// graft: the written entries hold in the initial heap
	for k, h := range st.heaps {
		r.graft(k, h)
	}
}

// graft asserts that heap0[k] agrees with every store of the init chain.
func (r *Run) graft(k string, h *T) {
	h0 := r.initHeap(k, h)
	seen := map[int]bool{}
	for h.Op == "store" {
		ref, v := h.Args[1], h.Args[2]
		if !seen[ref.ID] {
			seen[ref.ID] = true
			sel := r.c.Select(h0, ref)
			r.facts = append(r.facts, r.c.Eq(sel, v))
			r.c.InitV[[2]int{h0.ID, ref.ID}] = v
			r.c.ForgetSelect(h0, ref)
		}
		h = h.Args[0]
	}
}

// mutated: the global is stored to outside its package initialiser.
func (e *Engine) mutated(g *ssa.Global) bool {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	if v, ok := e.globStores[g]; ok {
		return v > 0
	}
	n := 0
	check := func(p *ssa.Package) {
		var visit func(fn *ssa.Function)
		visit = func(fn *ssa.Function) {
			if fn == nil || fn.Name() == "init" && fn.Synthetic != "" {
				return
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == g {
						n++
					}
					if u, ok := in.(*ssa.UnOp); ok && u.X == g && u.Referrers() != nil {
						for _, ref := range *u.Referrers() {
							if writesThrough(ref, u) {
								n++
							}
						}
					}
					if fa, ok := in.(*ssa.FieldAddr); ok && fa.X == g && addrWritten(fa) {
						n++
					}
					if ia, ok := in.(*ssa.IndexAddr); ok && ia.X == g && addrWritten(ia) {
						n++
					}
				}
			}
			for _, a := range fn.AnonFuncs {
				visit(a)
			}
		}
		for _, m := range p.Members {
			if fn, ok := m.(*ssa.Function); ok {
				visit(fn)
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := e.Prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := e.Prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == p {
							visit(f)
						}
					}
				}
			}
		}
	}
	check(g.Pkg)
	e.globStores[g] = n
	return n > 0
}

func addrWritten(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if addrWritten(x) {
				return true
			}
		case *ssa.IndexAddr:
			if addrWritten(x) {
				return true
			}
		}
	}
	return false
}

// writesThrough: the loaded map/slice/pointer value is written through by this use.
func writesThrough(in ssa.Instruction, v ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		return x.Map == v
	case *ssa.IndexAddr:
		return addrWritten(x)
	case *ssa.FieldAddr:
		return addrWritten(x)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			return true
		}
	}
	return false
}
