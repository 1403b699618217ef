package vc

import (
	"fmt"
	"go/types"
	"math/big"

	"govc/smt"
)

// Role of a leaf component.
type Role int

const (
	RInt Role = iota
	RBool
	RRef   // pointer, map, chan
	RStr   // string id
	RFunc  // function id
	RFloat // opaque
	RSBase
	RSOff
	RSLen
	RSCap
	RITag
	RIData
	RArr // lifted array
)

type Leaf struct {
	Path string
	Sort string
	Role Role
	Elem *Leaf // for RArr
	T    types.Type
	N    int64 // array length
}

type U = unsupported

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func under(t types.Type) types.Type { return t.Underlying() }

func isStruct(t types.Type) bool {
	_, ok := under(t).(*types.Struct)
	return ok && !isBig(t) && !isZ(t) && !isSeq(t)
}

// specification values: mathematical integers and byte-sequence snapshots.
func isZ(t types.Type) bool     { return isNamed(t, verifPath, "Z") }
func isSeq(t types.Type) bool   { return isNamed(t, verifPath, "Seq") }
func isArray(t types.Type) bool { _, ok := under(t).(*types.Array); return ok }

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// big.Int as an abstract object holding an Int value.
func isBig(t types.Type) bool { return isNamed(t, "math/big", "Int") }

func tkey(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
}

type flatMemo map[string][]Leaf

func (r *Run) flat(t types.Type) []Leaf {
	k := tkey(t)
	if l, ok := r.flats[k]; ok {
		return l
	}
	l := r.flat0(t)
	r.flats[k] = l
	return l
}

func (r *Run) flat0(t types.Type) []Leaf {
	if isBig(t) || isZ(t) {
		return []Leaf{{Path: "big", Sort: smt.Int, Role: RInt, T: nil}}
	}
	if isSeq(t) {
		return []Leaf{{Path: "row", Sort: smt.ArrSort(smt.Int, smt.Int), Role: RInt}, {Path: "off", Sort: smt.Int, Role: RInt}, {Path: "len", Sort: smt.Int, Role: RInt}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{Sort: smt.Bool, Role: RBool, T: t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{Sort: smt.Int, Role: RInt, T: t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{Sort: smt.Int, Role: RStr, T: t}}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return []Leaf{{Sort: smt.Int, Role: RFloat, T: t}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{Sort: smt.Int, Role: RRef, T: t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{Sort: smt.Int, Role: RRef, T: t}}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{Sort: smt.Int, Role: RRef, T: t}}
	case *types.Signature:
		return []Leaf{{Sort: smt.Int, Role: RFunc, T: t}}
	case *types.Slice:
		return []Leaf{{Path: "base", Sort: smt.Int, Role: RSBase, T: t}, {Path: "off", Sort: smt.Int, Role: RSOff, T: t},
			{Path: "len", Sort: smt.Int, Role: RSLen, T: t}, {Path: "cap", Sort: smt.Int, Role: RSCap, T: t}}
	case *types.Interface:
		return []Leaf{{Path: "tag", Sort: smt.Int, Role: RITag, T: t}, {Path: "data", Sort: smt.Int, Role: RIData, T: t}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range r.flat(f.Type()) {
				l.Path = f.Name() + "." + l.Path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range r.flat(u.Elem()) {
			e := l
			out = append(out, Leaf{Path: "[]" + l.Path, Sort: smt.ArrSort(smt.Int, l.Sort), Role: RArr, Elem: &e, T: t, N: u.Len()})
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, r.flat(u.At(i).Type())...)
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	if signed {
		hi = new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, big.NewInt(1))
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	}
	return lo, hi, true
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// Val is a symbolic Go value: flattened leaves.
type Val struct {
	C   []*smt.T
	Loc *Loc // pointer to a non-struct cell inside an object
	// multi-results
	Parts []Val
}

// Loc designates leaves of a cell: heap key prefix, object ref, optional index.
type Loc struct {
	Key string // heap key without leaf suffix
	Ref *smt.T
	Idx *smt.T // nil for plain cells
	T   types.Type
}

func (v Val) one() *smt.T {
	if len(v.C) != 1 {
		unsup("internal: expected scalar, got %d leaves (loc=%v)", len(v.C), v.Loc != nil)
	}
	return v.C[0]
}
