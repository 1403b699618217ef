package vc

import (
	"govc/smt"

	"golang.org/x/tools/go/ssa"
)

// The in-memory ordered table (memdb.DB) at its documented meaning, a finite map from byte
// strings to byte strings. Iterators are not modelled.

const memdbPkg = modPath + "/common/db/xleveldb/memdb"

func init() {
	dom, val := smt.ArrSort(smt.Int, smt.Bool), smt.ArrSort(smt.Int, smt.Int)
	trust := func(r *Run) {
		r.Trusted["memdb.DB: a finite map from byte strings to byte strings"] = true
	}
	reset := func(r *Run, st *State, ref *T) {
		r.heapSet(st, "memdb#dom", dom, ref, r.c.ConstArr(dom, r.c.False))
		r.heapSet(st, "memdb#val", val, ref, r.c.ConstArr(val, r.c.Zero))
	}
	key := func(r *Run, st *State, k Val) *T {
		s := r.bytesToStr(st, k)
		for _, o := range r.memKeys {
			if o == s {
				return s
			}
		}
		if len(r.memKeys) <= 40 {
			for _, o := range r.memKeys {
				r.strEq(o, s)
			}
		}
		r.memKeys = append(r.memKeys, s)
		return s
	}
	intrinsics[memdbPkg+".New2"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		trust(r)
		ref := r.newRef()
		reset(r, st, ref)
		return v1(ref)
	}
	m := "(*" + memdbPkg + ".DB)."
	intrinsics[m+"Reset"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		r.nonNil(st, a[0].one(), w, "memdb")
		reset(r, st, a[0].one())
		return Val{}
	}
	intrinsics[m+"Put"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		ref, c := a[0].one(), r.c
		r.nonNil(st, ref, w, "memdb")
		k, v := key(r, st, a[1]), r.bytesToStr(st, a[2])
		d, vs := c.Select(r.heap(st, "memdb#dom", dom), ref), c.Select(r.heap(st, "memdb#val", val), ref)
		r.heapSet(st, "memdb#dom", dom, ref, c.Store(d, k, c.True))
		r.heapSet(st, "memdb#val", val, ref, c.Store(vs, k, v))
		return Val{C: []*T{c.Zero, c.Zero}}
	}
	intrinsics[m+"Get"] = func(r *Run, fr *Frame, st *State, fn *ssa.Function, a []Val, w string) Val {
		ref, c := a[0].one(), r.c
		r.nonNil(st, ref, w, "memdb")
		k := key(r, st, a[1])
		has := c.Select(c.Select(r.heap(st, "memdb#dom", dom), ref), k)
		s := c.Select(c.Select(r.heap(st, "memdb#val", val), ref), k)
		z := Val{C: []*T{c.Zero, c.Zero, c.Zero, c.Zero}}
		nilErr := Val{C: []*T{c.Zero, c.Zero}}
		if has.IsFalse() {
			return Val{Parts: []Val{z, r.newErr(st)}}
		}
		v := r.bytesOf(st, s)
		rv, _ := mergeVals(c, has, v, z)
		re, _ := mergeVals(c, has, nilErr, r.newErr(st))
		return Val{Parts: []Val{rv, re}}
	}
}

// bytesOf: a fresh slice with the content of string term s.
func (r *Run) bytesOf(st *State, s *T) Val {
	c := r.c
	if s == c.Zero {
		return Val{C: []*T{r.newRef(), c.Zero, c.Zero, c.Zero}}
	}
	if s.Op == "ite" {
		a, b := r.bytesOf(st, s.Args[1]), r.bytesOf(st, s.Args[2])
		v, _ := mergeVals(c, s.Args[0], a, b)
		return v
	}
	if d := r.strDef[s.ID]; d != nil {
		srt := smt.ArrSort(smt.Int, smt.Int)
		base := r.newRef()
		r.heapSet(st, "e:uint8#0", srt, base, d.Args[0])
		return Val{C: []*T{base, d.Args[1], d.Args[2], d.Args[2]}}
	}
	return r.strToBytes(st, s)
}
