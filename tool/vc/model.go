package vc

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"govc/smt"
)

// Node is a concrete value handed to the native replay binary.
type Node struct {
	I *string `json:"i,omitempty"`
	B *bool   `json:"b,omitempty"`
	S *string `json:"s,omitempty"`
	X *string `json:"x,omitempty"`
	E []*Node `json:"e,omitempty"`
	P string  `json:"p,omitempty"`
	V *Node   `json:"v,omitempty"`
	N bool    `json:"n,omitempty"`
}

const mdlSlice = 40

type mcell struct {
	ts []*T
}

type builder struct {
	r     *Run
	terms []*T
	idx   map[int]int
	vals  []string
	st    *State
	n     int
}

func (b *builder) want(t *T) int {
	if i, ok := b.idx[t.ID]; ok {
		return i
	}
	b.idx[t.ID] = len(b.terms)
	b.terms = append(b.terms, t)
	return len(b.terms) - 1
}

// plan returns a closure that builds the concrete node once values are known.
func (b *builder) plan(v Val, t types.Type, depth int) func() *Node {
	r := b.r
	nilN := func() *Node { return &Node{N: true} }
	b.n++
	if depth > 6 || b.n > 3000 {
		return nilN
	}
	num := func(i int) func() *Node {
		return func() *Node { s := b.vals[i]; return &Node{I: &s} }
	}
	if isBig(t) || isZ(t) {
		return num(b.want(v.C[0]))
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			i := b.want(v.C[0])
			return func() *Node { x := b.vals[i] == "true"; return &Node{B: &x} }
		case u.Info()&types.IsInteger != 0:
			return num(b.want(v.C[0]))
		case u.Info()&types.IsString != 0:
			i := b.want(v.C[0])
			l := b.want(r.c.App("strlen", smt.Int, v.C[0]))
			row := r.c.App("strrow", smt.ArrSort(smt.Int, smt.Int), v.C[0])
			var bs []int
			for k := 0; k < mdlSlice; k++ {
				bs = append(bs, b.want(r.c.Select(row, r.c.I64(int64(k)))))
			}
			return func() *Node {
				id := atoi(b.vals[i])
				s := ""
				if id > 0 && id <= len(r.strVals) {
					s = r.strVals[id-1]
				} else {
					n := atoi(b.vals[l])
					for k := 0; k < n && k < len(bs); k++ {
						s += string(rune(atoi(b.vals[bs[k]]) & 0x7f))
					}
				}
				return &Node{S: &s}
			}
		}
	case *types.Pointer:
		i := b.want(v.C[0])
		et := u.Elem()
		func() {
			defer func() { recover() }()
		}()
		sub := b.plan(r.loadRef(b.st, v.C[0], et), et, depth+1)
		return func() *Node {
			if b.vals[i] == "0" {
				return &Node{N: true}
			}
			return &Node{P: b.vals[i], V: sub()}
		}
	case *types.Struct:
		var fs []func() *Node
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(r.flat(u.Field(i).Type()))
			fs = append(fs, b.plan(Val{C: v.C[k : k+n]}, u.Field(i).Type(), depth+1))
			k += n
		}
		return func() *Node {
			n := &Node{}
			for _, f := range fs {
				n.E = append(n.E, f())
			}
			return n
		}
	case *types.Array:
		var fs []func() *Node
		et := u.Elem()
		for i := int64(0); i < u.Len() && i < 64; i++ {
			var ev Val
			for _, row := range v.C {
				ev.C = append(ev.C, r.c.Select(row, r.c.I64(i)))
			}
			fs = append(fs, b.plan(ev, et, depth+1))
		}
		return func() *Node {
			n := &Node{}
			for _, f := range fs {
				n.E = append(n.E, f())
			}
			return n
		}
	case *types.Slice:
		bi, ln := b.want(v.C[0]), b.want(v.C[2])
		et := u.Elem()
		m := 4
		if _, ok := under(et).(*types.Basic); ok {
			m = mdlSlice
		}
		var fs []func() *Node
		for i := 0; i < m; i++ {
			ev := r.loadElem(b.st, v, r.c.I64(int64(i)), et)
			fs = append(fs, b.plan(ev, et, depth+1))
		}
		return func() *Node {
			if b.vals[bi] == "0" {
				return &Node{N: true}
			}
			n := &Node{E: []*Node{}}
			l := atoi(b.vals[ln])
			zero := "0"
			for k := 0; k < l && k < 4096; k++ {
				if k < len(fs) {
					n.E = append(n.E, fs[k]())
				} else if m == mdlSlice {
					n.E = append(n.E, &Node{I: &zero})
				}
			}
			return n
		}
	}
	return nilN
}

func atoi(s string) int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok || !b.IsInt64() || b.Int64() > 1<<20 || b.Int64() < 0 {
		return 0
	}
	return int(b.Int64())
}

// Counterexample asks the solver for the harness arguments of a failed obligation.
func (o *Obl) Counterexample(tmo time.Duration) (args []*Node, err error) {
	r := o.Run
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("model: %v", x)
		}
	}()
	var b *builder
	var plans []func() *Node
	var script string
	var names []string
	func() {
		r.smu.Lock()
		defer r.smu.Unlock()
		b = &builder{r: r, idx: map[int]int{}, st: &State{pc: r.c.True, env: map[ssa.Value]Val{}, heaps: map[string]*T{}}}
		nf := len(r.facts)
		for i, p := range o.Run.ct.Harness.Params {
			plans = append(plans, b.plan(r.params[i], p.Type(), 0))
		}
		as := append([]*T{}, r.facts[:o.NFact]...)
		as = append(as, r.facts[nf:]...)
		as = append(as, o.PC, r.c.Not(o.Goal))
		script, names = r.c.ScriptWith(as, b.terms)
	}()
	for _, s := range []string{"z3new", "z3"} {
		_, out := smt.Model(script, names, s, tmo)
		vals := parseValues(out)
		if len(vals) == len(b.terms) {
			b.vals = vals
			for _, p := range plans {
				args = append(args, p())
			}
			return args, nil
		}
		err = fmt.Errorf("no model (%s): %d of %d values", s, len(vals), len(b.terms))
	}
	return nil, err
}

// parseValues reads "((t v) (t v) ...)" and returns the v's.
func parseValues(s string) []string {
	toks := sexpr(s)
	if len(toks) == 0 {
		return nil
	}
	l, ok := toks[0].([]interface{})
	if !ok {
		return nil
	}
	var out []string
	for _, x := range l {
		p, ok := x.([]interface{})
		if !ok || len(p) != 2 {
			return nil
		}
		out = append(out, sval(p[1]))
	}
	return out
}

func sval(x interface{}) string {
	switch y := x.(type) {
	case string:
		return y
	case []interface{}:
		if len(y) == 2 {
			if s, ok := y[0].(string); ok && s == "-" {
				return "-" + sval(y[1])
			}
		}
	}
	return "?"
}

func sexpr(s string) []interface{} {
	var stack [][]interface{}
	cur := []interface{}{}
	i := 0
	for i < len(s) {
		switch c := s[i]; {
		case c == '(':
			stack = append(stack, cur)
			cur = []interface{}{}
			i++
		case c == ')':
			if len(stack) == 0 {
				return cur
			}
			p := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			p = append(p, cur)
			cur = p
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return cur
			}
			cur = append(cur, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			cur = append(cur, s[i:j])
			i = j
		}
	}
	return cur
}

// Consts lists integer literals of the code a run executed (search hints).
func (r *Run) Consts() []string {
	set := map[string]bool{}
	for fn := range r.InlFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if op == nil || *op == nil {
						continue
					}
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
						set[c.Value.ExactString()] = true
					}
				}
			}
		}
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	if len(out) > 300 {
		out = out[:300]
	}
	return out
}
