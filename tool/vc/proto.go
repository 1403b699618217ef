package vc

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"govc/smt"
)

// Protobuf messages. proto.Marshal is an injective function of the message's field values
// (scalars, byte strings, nested and repeated messages) and proto.Unmarshal inverts it: equal
// bytes give equal messages, and the bytes of a message give that message back, with empty
// byte strings read back as nil. What bytes that no Marshal call produced decode to is left
// open (but is one function of the bytes).

type pbField struct {
	i    int
	name string
	t    types.Type
}

func pbFields(st *types.Struct) []pbField {
	var out []pbField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if strings.HasPrefix(f.Name(), "XXX_") {
			continue
		}
		if !f.Exported() {
			unsup("protobuf message generated for the reflective runtime")
		}
		out = append(out, pbField{i, f.Name(), f.Type()})
	}
	return out
}

func pbStruct(t types.Type) (types.Type, *types.Struct) {
	p, ok := under(t).(*types.Pointer)
	if !ok {
		unsup("protobuf message of type %s", t)
	}
	s, ok := under(p.Elem()).(*types.Struct)
	if !ok {
		unsup("protobuf message of type %s", t)
	}
	return p.Elem(), s
}

// pbTerm: the value of a field (or repeated element) as one term.
func (r *Run) pbTerm(st *State, v Val, t types.Type) *T {
	c := r.c
	switch u := under(t).(type) {
	case *types.Basic:
		return v.one()
	case *types.Pointer:
		ref := v.one()
		if ref == c.Zero {
			return c.Zero
		}
		if c.Eq(ref, c.Zero).IsFalse() || r.provedPB(st, c.Not(c.Eq(ref, c.Zero))) {
			return r.pbEncode(st, ref, t)
		}
		return c.Ite(c.Eq(ref, c.Zero), c.Zero, r.pbEncode(st, ref, t))
	case *types.Slice:
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return r.mkStr(r.byteRow(st, v), v.C[1], v.C[2])
		}
		n := v.C[2]
		if !n.IsConst() || n.I.Int64() > 16 {
			unsup("marshalling a repeated field of symbolic length")
		}
		l := c.Zero
		for k := n.I.Int64() - 1; k >= 0; k-- {
			e := r.loadElem(st, v, c.I64(k), u.Elem())
			l = r.pbInj("pb.cons."+tkey(u.Elem()), r.pbTerm(st, e, u.Elem()), l)
		}
		return l
	}
	unsup("protobuf field of type %s", t)
	return nil
}

func (r *Run) provedPB(st *State, f *T) bool { return r.c.Implies(r.absPC(st), f).IsTrue() }

// pbInj: an injective constructor, never 0 (the absent value).
func (r *Run) pbInj(name string, args ...*T) *T {
	c := r.c
	t := c.App(name, smt.Int, args...)
	if len(args) == 0 {
		t = c.App(name, smt.Int, c.Zero)
	}
	key := fmt.Sprintf("pbinj%d", t.ID)
	if !r.axioms[key] && !t.Bound {
		r.axioms[key] = true
		r.bound(t, big.NewInt(1), nil)
		for i, a := range args {
			r.assumeAbs(c.Eq(c.App(fmt.Sprintf("%s~%d", name, i), a.Sort, t), a))
		}
	}
	return t
}

// pbProj: the i-th argument of such a constructor.
func (r *Run) pbProj(name string, i int, srt string, t *T) *T {
	c := r.c
	if d := r.pbDef[t.ID]; d != nil {
		t = d
	}
	if t.Op == "app" && t.Name == name {
		return t.Args[i]
	}
	if strings.HasPrefix(name, "pb.bytes.") && t == c.Zero {
		return c.Zero
	}
	if t.Op == "ite" {
		return c.Ite(t.Args[0], r.pbProj(name, i, srt, t.Args[1]), r.pbProj(name, i, srt, t.Args[2]))
	}
	return c.App(fmt.Sprintf("%s~%d", name, i), srt, t)
}

func (r *Run) pbEncode(st *State, ref *T, t types.Type) *T {
	mt, s := pbStruct(t)
	var args []*T
	for _, f := range pbFields(s) {
		args = append(args, r.pbTerm(st, r.loadField(st, ref, mt, f.i), f.t))
	}
	return r.pbInj("pb.msg."+tkey(mt), args...)
}

// pbVal: inverse of pbTerm.
func (r *Run) pbVal(st *State, x *T, t types.Type) Val {
	c := r.c
	switch u := under(t).(type) {
	case *types.Basic:
		v := Val{C: []*T{x}}
		for _, lf := range r.flat(t) {
			r.typeFacts(st, x, lf, nil)
		}
		return v
	case *types.Pointer:
		if x == c.Zero {
			return Val{C: []*T{c.Zero}}
		}
		ref := r.allocT(st, u.Elem())
		r.zeroInit(st, ref, u.Elem())
		r.pbDecode(st, x, ref, t)
		return Val{C: []*T{c.Ite(c.Eq(x, c.Zero), c.Zero, ref)}}
	case *types.Slice:
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return r.pbBytes(st, x)
		}
		var es []Val
		cons := "pb.cons." + tkey(u.Elem())
		for l := x; l != c.Zero; {
			if l.Op != "app" || l.Name != cons {
				unsup("unmarshalling a repeated field of unknown content")
			}
			es = append(es, r.pbVal(st, l.Args[0], u.Elem()))
			l = l.Args[1]
		}
		if len(es) == 0 {
			return r.zero(t)
		}
		n := c.I64(int64(len(es)))
		sl := r.makeSlice(st, t, n, n, "proto")
		for i, e := range es {
			r.store(st, r.elemAddr(sl.C[0], c.Add(sl.C[1], c.I64(int64(i))), u.Elem()), u.Elem(), e)
		}
		return sl
	}
	unsup("protobuf field of type %s", t)
	return Val{}
}

// pbBytes: a fresh slice with the content of string term s, nil when empty.
func (r *Run) pbBytes(st *State, s *T) Val {
	c := r.c
	if s == c.Zero {
		return Val{C: []*T{c.Zero, c.Zero, c.Zero, c.Zero}}
	}
	var v Val
	if d := r.strDef[s.ID]; d != nil {
		srt := smt.ArrSort(smt.Int, smt.Int)
		base := r.newRef()
		r.heapSet(st, "e:uint8#0", srt, base, d.Args[0])
		v = Val{C: []*T{base, d.Args[1], d.Args[2], d.Args[2]}}
	} else {
		r.bound(s, new(big.Int), nil)
		v = r.strToBytes(st, s)
	}
	n := v.C[2]
	v.C[0] = c.Ite(c.Eq(n, c.Zero), c.Zero, v.C[0])
	r.sliceFacts(st, v)
	return v
}

func (r *Run) pbDecode(st *State, x *T, ref *T, t types.Type) {
	mt, s := pbStruct(t)
	name := "pb.msg." + tkey(mt)
	for k, f := range pbFields(s) {
		srt := smt.Int
		if b, ok := under(f.t).(*types.Basic); ok && b.Kind() == types.Bool {
			srt = smt.Bool
		}
		p := r.pbProj(name, k, srt, x)
		r.storeField(st, ref, mt, f.i, r.pbVal(st, p, f.t))
	}
}

func (r *Run) protoType(v Val) types.Type {
	ls, all := constLeaves(v.C[0])
	if !all || len(ls) != 1 || ls[0].I.Sign() == 0 || ls[0].I.Int64() > int64(len(r.tagType)) {
		unsup("protobuf message of unknown type")
	}
	return r.tagType[ls[0].I.Int64()-1]
}

func (r *Run) protoCall(st *State, name string, args []Val, where string) (Val, bool) {
	c := r.c
	r.Trusted["protobuf "+name+": an injective encoding of the message's fields / its inverse"] = true
	nilErr := Val{C: []*T{c.Zero, c.Zero}}
	switch name {
	case "Marshal":
		t := r.protoType(args[0])
		ref := args[0].C[1]
		r.nonNil(st, ref, where, "proto.Marshal")
		enc := r.pbEncode(st, ref, t)
		// the bytes: a string of unknown length, the encoding being a function of it
		mt, _ := pbStruct(t)
		s := r.pbNamed(r.pbInj("pb.bytes."+tkey(mt), enc))
		empty := r.pbEmpty(mt, enc)
		key := fmt.Sprintf("pbok%d", s.ID)
		if !r.axioms[key] {
			r.axioms[key] = true
			r.assumeAbs(c.App("pb.ok."+tkey(mt), smt.Bool, s))
		}
		return Val{Parts: []Val{r.strToBytes(st, c.Ite(empty, c.Zero, s)), nilErr}}, true
	case "Unmarshal":
		t := r.protoType(args[1])
		ref := args[1].C[1]
		mt, _ := pbStruct(t)
		r.nonNil(st, ref, where, "proto.Unmarshal")
		s := r.bytesToStr(st, args[0])
		r.zeroInit(st, ref, mt)
		isEmpty := c.Eq(s, c.Zero)
		ok := c.Or(isEmpty, c.App("pb.ok."+tkey(mt), smt.Bool, s))
		enc := r.pbProj("pb.bytes."+tkey(mt), 0, smt.Int, s)
		r.pbDecode(st, c.Ite(isEmpty, r.pbZero(mt), enc), ref, t)
		e := r.newErr(st)
		m, _ := mergeVals(c, ok, nilErr, e)
		return m, true
	}
	return Val{}, false
}

// pbZero: the encoding of a message whose fields all have their zero value.
func (r *Run) pbZero(mt types.Type) *T {
	c := r.c
	var args []*T
	for _, f := range pbFields(under(mt).(*types.Struct)) {
		if b, ok := under(f.t).(*types.Basic); ok && b.Kind() == types.Bool {
			args = append(args, c.False)
			continue
		}
		args = append(args, c.Zero)
	}
	return r.pbInj("pb.msg."+tkey(mt), args...)
}

// pbEmpty: whether a message's encoding has no bytes.
func (r *Run) pbEmpty(mt types.Type, enc *T) *T {
	z := r.pbZero(mt)
	var es []*T
	for i := range enc.Args {
		if d := r.strDef[enc.Args[i].ID]; d != nil {
			es = append(es, r.c.Eq(d.Args[2], r.c.Zero))
			continue
		}
		es = append(es, r.c.Eq(enc.Args[i], z.Args[i]))
	}
	return r.c.And(es...)
}

// pbNamed: a name for an encoding, which keeps triggers over its bytes free of connectives.
func (r *Run) pbNamed(app *T) *T {
	if s := r.pbSym[app.ID]; s != nil {
		return s
	}
	s := r.c.Sym("pb", smt.Int)
	r.bound(s, big.NewInt(1), nil)
	r.assumeAbs(r.c.Eq(s, app))
	if r.pbSym == nil {
		r.pbSym, r.pbDef = map[int]*T{}, map[int]*T{}
	}
	r.pbSym[app.ID], r.pbDef[s.ID] = s, app
	return s
}
