// Package smt: hash-consed first-order terms with eager simplification.
package smt

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

const (
	Int  = "Int"
	Bool = "Bool"
)

func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

type T struct {
	ID    int
	Op    string
	Name  string // sym / app / bound name; for quantifiers: pattern spec unused
	Args  []*T
	Sort  string
	I     *big.Int // const value
	Coef  []*big.Int
	Bound bool // contains a bound variable
	Sym   int  // largest symbol sequence number contained
	Size  int
}

type Frame struct {
	Old *T
	Lim *big.Int
}

type bnd struct{ lo, hi *big.Int }

// Ctx owns a term universe.
type Ctx struct {
	tab    map[string]*T
	n      int
	symSeq int
	Decls  []string // declarations in order
	decld  map[string]bool
	bounds map[int]bnd
	bmemo  map[int]bnd
	selM   map[[2]int]*T
	InitV  map[[2]int]*T // known contents of initial heaps
	True   *T
	False  *T
	Zero   *T
	One    *T
	// Splices: dst with n elements of src (from sOff) copied to dOff: dst, dOff, src, sOff, n
	Splices map[int][]*T
	// Frames: an array known to agree with an older one on the indices from Lim on
	Frames map[int]Frame
	// PushDiv: distribute division and remainder by constants over conditionals
	PushDiv bool
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*T{}, decld: map[string]bool{}, bounds: map[int]bnd{}, bmemo: map[int]bnd{}, selM: map[[2]int]*T{}, InitV: map[[2]int]*T{}}
	c.True = c.mk("true", "", Bool, nil, nil, nil)
	c.False = c.mk("false", "", Bool, nil, nil, nil)
	c.Zero = c.I64(0)
	c.One = c.I64(1)
	return c
}

func (c *Ctx) SymSeq() int { return c.symSeq }

func (c *Ctx) mk(op, name, srt string, iv *big.Int, coef []*big.Int, args []*T) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	if iv != nil {
		sb.WriteString(iv.String())
	}
	for i, a := range args {
		fmt.Fprintf(&sb, ",%d", a.ID)
		if coef != nil {
			sb.WriteByte('*')
			sb.WriteString(coef[i].String())
		}
	}
	if op == "sym" || op == "bound" || op == "app" || op == "K" {
		sb.WriteByte('|')
		sb.WriteString(srt)
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &T{ID: c.n, Op: op, Name: name, Args: args, Sort: srt, I: iv, Coef: coef, Size: 1}
	c.n++
	for _, a := range args {
		if a.Bound {
			t.Bound = true
		}
		if a.Sym > t.Sym {
			t.Sym = a.Sym
		}
		t.Size += a.Size
		if t.Size > 1<<40 {
			t.Size = 1 << 40
		}
	}
	if op == "bound" {
		t.Bound = true
	}
	c.tab[k] = t
	return t
}

// ---- leaves

func (c *Ctx) Big(v *big.Int) *T {
	return c.mk("const", "", Int, new(big.Int).Set(v), nil, nil)
}
func (c *Ctx) I64(v int64) *T { return c.Big(big.NewInt(v)) }
func (c *Ctx) B(v bool) *T {
	if v {
		return c.True
	}
	return c.False
}

func sane(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// Sym makes a fresh symbol.
func (c *Ctx) Sym(hint, srt string) *T {
	c.symSeq++
	n := fmt.Sprintf("%s!%d", sane(hint), c.symSeq)
	t := c.mk("sym", n, srt, nil, nil, nil)
	t.Sym = c.symSeq
	c.Decls = append(c.Decls, fmt.Sprintf("(declare-fun |%s| () %s)", n, srt))
	return t
}

func (c *Ctx) BoundVar(hint, srt string) *T {
	c.symSeq++
	n := fmt.Sprintf("%s?%d", sane(hint), c.symSeq)
	return c.mk("bound", n, srt, nil, nil, nil)
}

// App applies an uninterpreted function (declared on first use).
func (c *Ctx) App(name, srt string, args ...*T) *T {
	key := name
	if !c.decld[key] {
		c.decld[key] = true
		var ss []string
		for _, a := range args {
			ss = append(ss, a.Sort)
		}
		c.Decls = append(c.Decls, fmt.Sprintf("(declare-fun |%s| (%s) %s)", name, strings.Join(ss, " "), srt))
	}
	return c.mk("app", name, srt, nil, nil, args)
}

func (c *Ctx) DeclareOnce(key, text string) {
	if !c.decld[key] {
		c.decld[key] = true
		c.Decls = append(c.Decls, text)
	}
}

// Builtin applies an interpreted SMT-LIB function name verbatim.
func (c *Ctx) Builtin(name, srt string, args ...*T) *T {
	return c.mk("builtin", name, srt, nil, nil, args)
}

func (t *T) IsConst() bool { return t.Op == "const" }
func (t *T) IsTrue() bool  { return t.Op == "true" }
func (t *T) IsFalse() bool { return t.Op == "false" }

// ---- linear arithmetic

type lin struct {
	k     *big.Int
	ts    []*T
	coefs []*big.Int
}

// SplitIte finds an ite atom in an integer term and returns its condition with both instances.
func (c *Ctx) SplitIte(t *T) (cond, a, b *T, ok bool) {
	if t.Op == "ite" {
		return t.Args[0], t.Args[1], t.Args[2], true
	}
	if t.Op != "lin" {
		return nil, nil, nil, false
	}
	for i, x := range t.Args {
		if x.Op == "ite" {
			rest := c.Sub(t, c.MulC(x, t.Coef[i]))
			return x.Args[0], c.Add(rest, c.MulC(x.Args[1], t.Coef[i])), c.Add(rest, c.MulC(x.Args[2], t.Coef[i])), true
		}
	}
	return nil, nil, nil, false
}

func (c *Ctx) toLin(t *T) lin {
	switch t.Op {
	case "const":
		return lin{k: t.I}
	case "lin":
		return lin{k: t.I, ts: t.Args, coefs: t.Coef}
	}
	return lin{k: new(big.Int), ts: []*T{t}, coefs: []*big.Int{big.NewInt(1)}}
}

func (c *Ctx) fromLin(l lin) *T {
	if len(l.ts) == 0 {
		return c.Big(l.k)
	}
	if len(l.ts) == 1 && l.k.Sign() == 0 && l.coefs[0].IsInt64() && l.coefs[0].Int64() == 1 {
		return l.ts[0]
	}
	return c.mk("lin", "", Int, l.k, l.coefs, l.ts)
}

func linComb(a lin, ka *big.Int, b lin, kb *big.Int) lin {
	r := lin{k: new(big.Int).Add(new(big.Int).Mul(a.k, ka), new(big.Int).Mul(b.k, kb))}
	i, j := 0, 0
	push := func(t *T, co *big.Int) {
		if co.Sign() != 0 {
			r.ts = append(r.ts, t)
			r.coefs = append(r.coefs, co)
		}
	}
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || (i < len(a.ts) && a.ts[i].ID < b.ts[j].ID):
			push(a.ts[i], new(big.Int).Mul(a.coefs[i], ka))
			i++
		case i >= len(a.ts) || b.ts[j].ID < a.ts[i].ID:
			push(b.ts[j], new(big.Int).Mul(b.coefs[j], kb))
			j++
		default:
			x := new(big.Int).Mul(a.coefs[i], ka)
			x.Add(x, new(big.Int).Mul(b.coefs[j], kb))
			push(a.ts[i], x)
			i++
			j++
		}
	}
	return r
}

var one = big.NewInt(1)
var mone = big.NewInt(-1)

func (c *Ctx) Add(ts ...*T) *T {
	r := lin{k: new(big.Int)}
	for _, t := range ts {
		r = linComb(r, one, c.toLin(t), one)
	}
	return c.fromLin(r)
}
func (c *Ctx) Sub(a, b *T) *T {
	return c.fromLin(linComb(c.toLin(a), one, c.toLin(b), mone))
}
func (c *Ctx) Neg(a *T) *T { return c.Sub(c.Zero, a) }
func (c *Ctx) MulC(a *T, k *big.Int) *T {
	if k.Sign() == 0 {
		return c.Zero
	}
	return c.fromLin(linComb(c.toLin(a), k, lin{k: new(big.Int)}, one))
}
func (c *Ctx) Mul(a, b *T) *T {
	if a.IsConst() {
		return c.MulC(b, a.I)
	}
	if b.IsConst() {
		return c.MulC(a, b.I)
	}
	// distribute constants out of products of linear terms with a single monomial
	la, lb := c.toLin(a), c.toLin(b)
	if len(la.ts) == 1 && la.k.Sign() == 0 && !(la.coefs[0].Cmp(one) == 0) {
		return c.MulC(c.Mul(la.ts[0], b), la.coefs[0])
	}
	if len(lb.ts) == 1 && lb.k.Sign() == 0 && !(lb.coefs[0].Cmp(one) == 0) {
		return c.MulC(c.Mul(a, lb.ts[0]), lb.coefs[0])
	}
	// flatten products
	var fs []*T
	for _, x := range []*T{a, b} {
		if x.Op == "*" {
			fs = append(fs, x.Args...)
		} else {
			fs = append(fs, x)
		}
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	return c.mk("*", "", Int, nil, nil, fs)
}

// Div and Mod are SMT-LIB (Euclidean for positive divisors: floor).
func (c *Ctx) Div(a, b *T) *T {
	if b.IsConst() && b.I.Sign() > 0 {
		if c.PushDiv && a.Op == "ite" && a.Size < 400 {
			return c.Ite(a.Args[0], c.Div(a.Args[1], b), c.Div(a.Args[2], b))
		}
		if b.I.Cmp(one) == 0 {
			return a
		}
		if a.IsConst() {
			q, _ := new(big.Int).DivMod(a.I, b.I, new(big.Int))
			return c.Big(q)
		}
		lo, hi := c.Bounds(a)
		if lo != nil && hi != nil {
			q1 := new(big.Int).Div(lo, b.I)
			q2 := new(big.Int).Div(hi, b.I)
			if q1.Cmp(q2) == 0 {
				return c.Big(q1)
			}
		}
		// split off multiples of b
		la := c.toLin(a)
		rest := lin{k: new(big.Int)}
		quo := lin{k: new(big.Int)}
		for i := range la.ts {
			q, r := new(big.Int).DivMod(la.coefs[i], b.I, new(big.Int))
			if r.Sign() == 0 {
				quo.ts = append(quo.ts, la.ts[i])
				quo.coefs = append(quo.coefs, q)
			} else {
				rest.ts = append(rest.ts, la.ts[i])
				rest.coefs = append(rest.coefs, la.coefs[i])
			}
		}
		q, r := new(big.Int).DivMod(la.k, b.I, new(big.Int))
		quo.k, rest.k = q, r
		if len(quo.ts) > 0 || q.Sign() != 0 {
			return c.Add(c.fromLin(quo), c.Div(c.fromLin(rest), b))
		}
		// (g*q + r) div (g*b') = q div b' when 0 <= r < g
		if len(la.ts) > 1 {
			for i := range la.ts {
				g := new(big.Int).Abs(la.coefs[i])
				if g.Cmp(one) <= 0 || new(big.Int).Mod(b.I, g).Sign() != 0 {
					continue
				}
				mul, rem := lin{k: new(big.Int)}, lin{k: new(big.Int)}
				for j := range la.ts {
					q, m := new(big.Int).DivMod(la.coefs[j], g, new(big.Int))
					if m.Sign() == 0 {
						mul.ts = append(mul.ts, la.ts[j])
						mul.coefs = append(mul.coefs, q)
					} else {
						rem.ts = append(rem.ts, la.ts[j])
						rem.coefs = append(rem.coefs, la.coefs[j])
					}
				}
				q, m := new(big.Int).DivMod(la.k, g, new(big.Int))
				mul.k, rem.k = q, m
				lo, hi := c.Bounds(c.fromLin(rem))
				if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(g) < 0 {
					return c.Div(c.fromLin(mul), c.Big(new(big.Int).Div(b.I, g)))
				}
			}
		}
		// (x div a) div b = x div (a*b)
		if a.Op == "div" && a.Args[1].IsConst() && a.Args[1].I.Sign() > 0 {
			return c.Div(a.Args[0], c.Big(new(big.Int).Mul(a.Args[1].I, b.I)))
		}
		// (x mod m) div b = (x div b) mod (m/b) when b | m
		if a.Op == "mod" && a.Args[1].IsConst() && a.Args[1].I.Sign() > 0 {
			if q, r := new(big.Int).DivMod(a.Args[1].I, b.I, new(big.Int)); r.Sign() == 0 {
				return c.Mod(c.Div(a.Args[0], b), c.Big(q))
			}
		}
		return c.mk("div", "", Int, nil, nil, []*T{a, b})
	}
	if a.IsConst() && b.IsConst() && b.I.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.I, b.I, new(big.Int))
		return c.Big(q)
	}
	return c.mk("div", "", Int, nil, nil, []*T{a, b})
}

func (c *Ctx) Mod(a, b *T) *T {
	if b.IsConst() && b.I.Sign() > 0 {
		if c.PushDiv && a.Op == "ite" && a.Size < 400 {
			return c.Ite(a.Args[0], c.Mod(a.Args[1], b), c.Mod(a.Args[2], b))
		}
		if a.IsConst() {
			return c.Big(new(big.Int).Mod(a.I, b.I))
		}
		lo, hi := c.Bounds(a)
		if lo != nil && hi != nil {
			q1 := new(big.Int).Div(lo, b.I)
			q2 := new(big.Int).Div(hi, b.I)
			if q1.Cmp(q2) == 0 {
				return c.Sub(a, c.Big(q1.Mul(q1, b.I)))
			}
		}
		la := c.toLin(a)
		rest := lin{k: new(big.Int).Mod(la.k, b.I)}
		for i := range la.ts {
			r := new(big.Int).Rem(la.coefs[i], b.I)
			if r.Sign() != 0 {
				rest.ts = append(rest.ts, la.ts[i])
				rest.coefs = append(rest.coefs, r)
			}
		}
		na := c.fromLin(rest)
		if na != a {
			return c.Mod(na, b)
		}
		if a.Op == "mod" && a.Args[1].IsConst() && new(big.Int).Mod(a.Args[1].I, b.I).Sign() == 0 {
			return c.Mod(a.Args[0], b)
		}
		return c.mk("mod", "", Int, nil, nil, []*T{a, b})
	}
	if a.IsConst() && b.IsConst() && b.I.Sign() != 0 {
		return c.Big(new(big.Int).Mod(a.I, new(big.Int).Abs(b.I)))
	}
	return c.mk("mod", "", Int, nil, nil, []*T{a, b})
}

// ---- bounds (nil = unbounded)

func (c *Ctx) SetBounds(t *T, lo, hi *big.Int) {
	if t.IsConst() {
		return
	}
	if o, ok := c.bounds[t.ID]; ok {
		if lo == nil || (o.lo != nil && o.lo.Cmp(lo) > 0) {
			lo = o.lo
		}
		if hi == nil || (o.hi != nil && o.hi.Cmp(hi) < 0) {
			hi = o.hi
		}
	}
	c.bounds[t.ID] = bnd{lo, hi}
	delete(c.bmemo, t.ID)
}

// ForgetBounds drops memoised bounds of compound terms.
func (c *Ctx) ForgetBounds() { c.bmemo = map[int]bnd{} }

// Learn derives bounds of atoms from a fact that holds unconditionally.
func (c *Ctx) Learn(f *T) {
	switch f.Op {
	case "and":
		for _, a := range f.Args {
			c.Learn(a)
		}
	case "<=":
		c.learn(linComb(c.toLin(f.Args[1]), one, c.toLin(f.Args[0]), mone))
	case "not":
		if g := f.Args[0]; g.Op == "<=" {
			d := linComb(c.toLin(g.Args[0]), one, c.toLin(g.Args[1]), mone)
			c.learn(linComb(d, one, lin{k: one}, mone))
		}
	case "=":
		if f.Args[0].Sort == Int {
			d := linComb(c.toLin(f.Args[1]), one, c.toLin(f.Args[0]), mone)
			c.learn(d)
			c.learn(linComb(d, mone, lin{k: new(big.Int)}, one))
		}
	}
}

// learn: d >= 0 holds.
func (c *Ctx) learn(d lin) {
	for i, x := range d.ts {
		if x.Bound || (x.Op != "sym" && x.Op != "select" && x.Op != "app") || d.coefs[i].CmpAbs(one) != 0 {
			continue
		}
		rest := c.fromLin(linComb(d, one, lin{k: new(big.Int), ts: []*T{x}, coefs: []*big.Int{d.coefs[i]}}, mone))
		_, hi := c.Bounds(rest)
		if hi == nil {
			continue
		}
		if d.coefs[i].Sign() > 0 {
			c.SetBounds(x, new(big.Int).Neg(hi), nil)
		} else {
			c.SetBounds(x, nil, hi)
		}
		c.bmemo = map[int]bnd{}
	}
}

func (c *Ctx) Bounds(t *T) (*big.Int, *big.Int) {
	if t.IsConst() {
		return t.I, t.I
	}
	if b, ok := c.bmemo[t.ID]; ok {
		return b.lo, b.hi
	}
	var lo, hi *big.Int
	switch t.Op {
	case "lin":
		lo, hi = new(big.Int).Set(t.I), new(big.Int).Set(t.I)
		for i, a := range t.Args {
			l, h := c.Bounds(a)
			if t.Coef[i].Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(l, t.Coef[i]))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(h, t.Coef[i]))
				}
			}
		}
	case "*":
		lo, hi = big.NewInt(1), big.NewInt(1)
		nonneg := true
		for _, a := range t.Args {
			l, h := c.Bounds(a)
			if l == nil || l.Sign() < 0 {
				nonneg = false
				break
			}
			lo = new(big.Int).Mul(lo, l)
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Mul(hi, h)
				}
			}
		}
		if !nonneg {
			lo, hi = nil, nil
		}
	case "div":
		if b := t.Args[1]; b.IsConst() && b.I.Sign() > 0 {
			l, h := c.Bounds(t.Args[0])
			if l != nil {
				lo = new(big.Int).Div(l, b.I)
			}
			if h != nil {
				hi = new(big.Int).Div(h, b.I)
			}
		} else {
			l, h := c.Bounds(t.Args[0])
			l2, _ := c.Bounds(t.Args[1])
			if l != nil && l.Sign() >= 0 && l2 != nil && l2.Sign() > 0 {
				lo = new(big.Int)
				hi = h
			}
		}
	case "mod":
		if b := t.Args[1]; b.IsConst() && b.I.Sign() > 0 {
			lo = new(big.Int)
			hi = new(big.Int).Sub(b.I, one)
		} else {
			l2, h2 := c.Bounds(t.Args[1])
			if l2 != nil && l2.Sign() > 0 {
				lo = new(big.Int)
				if h2 != nil {
					hi = new(big.Int).Sub(h2, one)
				}
			}
		}
	case "ite":
		l1, h1 := c.Bounds(t.Args[1])
		l2, h2 := c.Bounds(t.Args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(lo) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(hi) > 0 {
				hi = h2
			}
		}
	}
	if b, ok := c.bounds[t.ID]; ok {
		if b.lo != nil && (lo == nil || lo.Cmp(b.lo) < 0) {
			lo = b.lo
		}
		if b.hi != nil && (hi == nil || hi.Cmp(b.hi) > 0) {
			hi = b.hi
		}
	}
	c.bmemo[t.ID] = bnd{lo, hi}
	return lo, hi
}

// ---- booleans

func (c *Ctx) Not(a *T) *T {
	switch a.Op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.Args[0]
	}
	return c.mk("not", "", Bool, nil, nil, []*T{a})
}

func (c *Ctx) And(ts ...*T) *T { return c.nary("and", ts) }
func (c *Ctx) Or(ts ...*T) *T  { return c.nary("or", ts) }

func conjuncts(t *T, op string) []*T {
	if t.Op == op {
		return t.Args
	}
	return []*T{t}
}

func (c *Ctx) nary(op string, ts []*T) *T {
	unit, zero := c.True, c.False
	other := "or"
	if op == "or" {
		unit, zero = c.False, c.True
		other = "and"
	}
	set := map[int]*T{}
	var list []*T
	var add func(t *T) bool
	add = func(t *T) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if _, ok := set[t.ID]; ok {
			return true
		}
		if _, ok := set[c.Not(t).ID]; ok {
			return false
		}
		set[t.ID] = t
		list = append(list, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	// absorption / unit resolution against nested other-op
	changed := true
	for changed && len(list) > 1 {
		changed = false
		for i, t := range list {
			if t.Op != other {
				continue
			}
			absorbed := false
			var keep []*T
			drop := false
			for _, a := range t.Args {
				if _, ok := set[a.ID]; ok {
					absorbed = true
					break
				}
				if _, ok := set[c.Not(a).ID]; ok {
					drop = true
					continue
				}
				keep = append(keep, a)
			}
			if absorbed {
				delete(set, t.ID)
				list = append(append([]*T{}, list[:i]...), list[i+1:]...)
				changed = true
				break
			}
			if drop {
				delete(set, t.ID)
				rest := append(append([]*T{}, list[:i]...), list[i+1:]...)
				nt := c.nary(other, keep)
				return c.nary(op, append(rest, nt))
			}
		}
	}
	if len(list) == 0 {
		return unit
	}
	if len(list) == 1 {
		return list[0]
	}
	if op == "or" && len(list) == 2 {
		// factor common conjuncts
		a, b := conjuncts(list[0], "and"), conjuncts(list[1], "and")
		in := map[int]bool{}
		for _, x := range b {
			in[x.ID] = true
		}
		var common, ra, rb []*T
		cm := map[int]bool{}
		for _, x := range a {
			if in[x.ID] {
				common = append(common, x)
				cm[x.ID] = true
			} else {
				ra = append(ra, x)
			}
		}
		if len(common) > 0 {
			for _, x := range b {
				if !cm[x.ID] {
					rb = append(rb, x)
				}
			}
			return c.And(append(common, c.Or(c.And(ra...), c.And(rb...)))...)
		}
	}
	if op == "or" && len(list) > 2 {
		// try pairwise merging: if any two disjuncts factor down to a smaller conj, do so
		for i := 0; i < len(list) && len(list) <= 24; i++ {
			for j := i + 1; j < len(list); j++ {
				a, b := conjuncts(list[i], "and"), conjuncts(list[j], "and")
				if len(a) != len(b) {
					continue
				}
				in := map[int]bool{}
				for _, x := range b {
					in[x.ID] = true
				}
				var diff *T
				nd := 0
				for _, x := range a {
					if !in[x.ID] {
						nd++
						diff = x
					}
				}
				if nd == 1 && in[c.Not(diff).ID] {
					var common []*T
					for _, x := range a {
						if x != diff {
							common = append(common, x)
						}
					}
					var rest []*T
					for k, x := range list {
						if k != i && k != j {
							rest = append(rest, x)
						}
					}
					return c.Or(append(rest, c.And(common...))...)
				}
			}
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].ID < list[j].ID })
	return c.mk(op, "", Bool, nil, nil, list)
}

func (c *Ctx) Implies(a, b *T) *T { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cd, a, b *T) *T {
	if cd.IsTrue() || a == b {
		return a
	}
	if cd.IsFalse() {
		return b
	}
	if cd.Op == "not" {
		return c.Ite(cd.Args[0], b, a)
	}
	if a.Sort == Bool {
		if a.IsTrue() {
			return c.Or(cd, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cd), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cd), a)
		}
		if b.IsFalse() {
			return c.And(cd, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == cd {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == cd {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// ite(k <= x, x, k) = k when x <= k, and its mirror images
	if a.Sort == Int {
		if b.IsConst() && !a.IsConst() {
			if _, hi := c.Bounds(a); hi != nil && hi.Cmp(b.I) == 0 && cd == c.Le(b, a) {
				return b
			}
		}
		if a.IsConst() && !b.IsConst() {
			if _, hi := c.Bounds(b); hi != nil && hi.Cmp(a.I) == 0 && cd == c.Lt(b, a) {
				return a
			}
		}
	}
	// ite(c1, x, ite(c2, x, y)) = ite(c1|c2, x, y)
	if b.Op == "ite" && b.Args[1] == a {
		return c.Ite(c.Or(cd, b.Args[0]), a, b.Args[2])
	}
	if a.Op == "ite" && a.Args[2] == b {
		return c.Ite(c.And(cd, a.Args[0]), a.Args[1], b)
	}
	return c.mk("ite", "", a.Sort, nil, nil, []*T{cd, a, b})
}

// ---- comparisons

func splitLin(l lin) (pos, neg lin) {
	pos, neg = lin{k: new(big.Int)}, lin{k: new(big.Int)}
	for i := range l.ts {
		if l.coefs[i].Sign() > 0 {
			pos.ts = append(pos.ts, l.ts[i])
			pos.coefs = append(pos.coefs, l.coefs[i])
		} else {
			neg.ts = append(neg.ts, l.ts[i])
			neg.coefs = append(neg.coefs, new(big.Int).Neg(l.coefs[i]))
		}
	}
	if l.k.Sign() > 0 {
		pos.k = l.k
	} else {
		neg.k = new(big.Int).Neg(l.k)
	}
	return
}

func (c *Ctx) Le(a, b *T) *T {
	d := linComb(c.toLin(a), one, c.toLin(b), mone) // d <= 0
	if len(d.ts) == 0 {
		return c.B(d.k.Sign() <= 0)
	}
	dt := c.fromLin(d)
	lo, hi := c.Bounds(dt)
	if hi != nil && hi.Sign() <= 0 {
		return c.True
	}
	if lo != nil && lo.Sign() > 0 {
		return c.False
	}
	// divide by gcd of coefs
	g := new(big.Int).Abs(d.coefs[0])
	for _, k := range d.coefs[1:] {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	if g.Cmp(one) > 0 {
		n := lin{ts: d.ts}
		for _, k := range d.coefs {
			n.coefs = append(n.coefs, new(big.Int).Quo(k, g))
		}
		// sum <= -k  ->  sum/g <= floor(-k/g)
		mk := new(big.Int).Neg(d.k)
		q := new(big.Int)
		q.DivMod(mk, g, new(big.Int))
		n.k = q.Neg(q)
		d = n
	}
	neg := false
	if d.coefs[0].Sign() < 0 {
		// not( d > 0 ) : d<=0  <=> not(d>=1) <=> not(-d+1<=0)
		neg = true
		d = linComb(d, mone, lin{k: one}, one)
	}
	p, n := splitLin(d)
	// ite pushing for small ite-constants
	lt, rt := c.fromLin(p), c.fromLin(n)
	r := c.cmpIte(lt, rt)
	if r == nil {
		r = c.mk("<=", "", Bool, nil, nil, []*T{lt, rt})
	}
	if neg {
		return c.Not(r)
	}
	return r
}

// cmpIte pushes <= through an ite when one side is const and ite branches are const.
func (c *Ctx) cmpIte(l, r *T) *T {
	if l.Op == "ite" && r.IsConst() && (l.Args[1].IsConst() || l.Args[2].IsConst()) {
		return c.Ite(l.Args[0], c.Le(l.Args[1], r), c.Le(l.Args[2], r))
	}
	if r.Op == "ite" && l.IsConst() && (r.Args[1].IsConst() || r.Args[2].IsConst()) {
		return c.Ite(r.Args[0], c.Le(l, r.Args[1]), c.Le(l, r.Args[2]))
	}
	return nil
}

func (c *Ctx) Lt(a, b *T) *T { return c.Le(c.Add(a, c.One), b) }
func (c *Ctx) Ge(a, b *T) *T { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *T) *T { return c.Lt(b, a) }

// Distinct reports syntactic disequality of Int terms.
func (c *Ctx) Distinct(a, b *T) bool {
	if a.Sort != Int {
		return false
	}
	d := linComb(c.toLin(a), one, c.toLin(b), mone)
	if len(d.ts) == 0 {
		return d.k.Sign() != 0
	}
	if a.Op == "app" && b.Op == "app" && strings.HasPrefix(a.Name, "inj.") && strings.HasPrefix(b.Name, "inj.") {
		if a.Name != b.Name {
			return true
		}
		for i := range a.Args {
			if c.Distinct(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	dt := c.fromLin(d)
	lo, hi := c.Bounds(dt)
	return (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0)
}

func (c *Ctx) Eq(a, b *T) *T {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s vs %s (%s / %s)", a.Sort, b.Sort, a.String(), b.String()))
	}
	if a.Sort == Bool {
		if a.IsTrue() {
			return b
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return c.mk("=", "", Bool, nil, nil, []*T{a, b})
	}
	if a.Sort == Int {
		if c.Distinct(a, b) {
			return c.False
		}
		// push through ite with constant leaves
		if a.Op == "ite" && (b.IsConst() || a.Args[1] == b || a.Args[2] == b) && (a.Args[1].IsConst() || a.Args[2].IsConst() || a.Args[1] == b || a.Args[2] == b) {
			return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
		}
		if b.Op == "ite" && (a.IsConst() || b.Args[1] == a || b.Args[2] == a) && (b.Args[1].IsConst() || b.Args[2].IsConst() || b.Args[1] == a || b.Args[2] == a) {
			return c.Ite(b.Args[0], c.Eq(a, b.Args[1]), c.Eq(a, b.Args[2]))
		}
		// injective constructor apps
		if a.Op == "app" && b.Op == "app" && a.Name == b.Name && strings.HasPrefix(a.Name, "inj.") && len(a.Args) == len(b.Args) {
			var es []*T
			for i := range a.Args {
				es = append(es, c.Eq(a.Args[i], b.Args[i]))
			}
			return c.And(es...)
		}
		if a.Op == "app" && b.Op == "app" && a.Name != b.Name && strings.HasPrefix(a.Name, "inj.") && strings.HasPrefix(b.Name, "inj.") {
			return c.False
		}
		d := linComb(c.toLin(a), one, c.toLin(b), mone)
		if d.coefs[0].Sign() < 0 {
			d = linComb(d, mone, lin{k: new(big.Int)}, one)
		}
		if len(d.ts) == 1 && d.coefs[0].Cmp(one) != 0 {
			m := new(big.Int)
			q, _ := new(big.Int).DivMod(new(big.Int).Neg(d.k), d.coefs[0], m)
			if m.Sign() != 0 {
				return c.False
			}
			return c.Eq(d.ts[0], c.Big(q))
		}
		p, n := splitLin(d)
		return c.mk("=", "", Bool, nil, nil, []*T{c.fromLin(p), c.fromLin(n)})
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk("=", "", Bool, nil, nil, []*T{a, b})
}

// ---- arrays

func elemSort(s string) string { // "(Array K V)" -> V
	_, v := SplitArr(s)
	return v
}

// SplitArr splits an array sort into key and value sorts.
func SplitArr(s string) (string, string) {
	body := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	depth := 0
	for i, r := range body {
		switch r {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("not an array sort: " + s)
}

func (c *Ctx) ConstArr(srt string, v *T) *T { return c.mk("K", "", srt, nil, nil, []*T{v}) }

func (c *Ctx) Select(a, i *T) *T {
	key := [2]int{a.ID, i.ID}
	if r, ok := c.selM[key]; ok {
		return r
	}
	r := c.select0(a, i)
	c.selM[key] = r
	return r
}

func (c *Ctx) select0(a, i *T) *T {
	cur := a
	for {
		switch cur.Op {
		case "store":
			if cur.Args[1] == i {
				return cur.Args[2]
			}
			if c.Distinct(cur.Args[1], i) {
				cur = cur.Args[0]
				continue
			}
		case "sym":
			if d := c.Splices[cur.ID]; d != nil && !i.Bound {
				in := c.And(c.Le(d[1], i), c.Lt(i, c.Add(d[1], d[4])))
				if in.IsFalse() {
					cur = d[0]
					continue
				}
				if in.IsTrue() || i.IsConst() {
					return c.Ite(in, c.Select(d[2], c.Add(d[3], c.Sub(i, d[1]))), c.Select(d[0], i))
				}
			}
			if f, ok := c.Frames[cur.ID]; ok {
				if lo, _ := c.Bounds(i); lo != nil && lo.Cmp(f.Lim) >= 0 {
					cur = f.Old
					continue
				}
			}
		case "K":
			return cur.Args[0]
		case "ite":
			if i.Op != "bound" && !i.Bound {
				return c.Ite(cur.Args[0], c.Select(cur.Args[1], i), c.Select(cur.Args[2], i))
			}
		}
		break
	}
	if cur.Op == "sym" {
		if v, ok := c.InitV[[2]int{cur.ID, i.ID}]; ok {
			return v
		}
	}
	return c.mk("select", "", elemSort(cur.Sort), nil, nil, []*T{cur, i})
}

func (c *Ctx) Store(a, i, v *T) *T {
	if a.Op == "store" && a.Args[1] == i {
		return c.Store(a.Args[0], i, v)
	}
	if a.Op == "K" && a.Args[0] == v {
		return a
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk("store", "", a.Sort, nil, nil, []*T{a, i, v})
}

// ---- quantifiers

func (c *Ctx) Forall(vars []*T, body *T, pats ...[]*T) *T {
	if !body.Bound {
		return body
	}
	if body.IsTrue() {
		return c.True
	}
	args := append([]*T{}, vars...)
	args = append(args, body)
	name := fmt.Sprint(len(vars))
	for _, p := range pats {
		name += fmt.Sprintf(":%d", len(p))
		args = append(args, p...)
	}
	t := c.mk("forall", name, Bool, nil, nil, args)
	t.Bound = hasFreeBound(t, map[int]bool{})
	return t
}

func hasFreeBound(t *T, bound map[int]bool) bool {
	if !t.Bound {
		return false
	}
	if t.Op == "bound" {
		return !bound[t.ID]
	}
	if t.Op == "forall" {
		var n int
		fmt.Sscanf(t.Name, "%d", &n)
		nb := map[int]bool{}
		for k := range bound {
			nb[k] = true
		}
		for i := 0; i < n; i++ {
			nb[t.Args[i].ID] = true
		}
		for _, a := range t.Args[n:] {
			if hasFreeBound(a, nb) {
				return true
			}
		}
		return false
	}
	for _, a := range t.Args {
		if hasFreeBound(a, bound) {
			return true
		}
	}
	return false
}

// Subst replaces terms by ID.
func (c *Ctx) Subst(t *T, m map[int]*T) *T {
	memo := map[int]*T{}
	var f func(t *T) *T
	f = func(t *T) *T {
		if r, ok := m[t.ID]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t.ID]; ok {
			return r
		}
		args := make([]*T, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.Rebuild(t, args)
		}
		memo[t.ID] = r
		return r
	}
	return f(t)
}

func (c *Ctx) Rebuild(t *T, args []*T) *T {
	switch t.Op {
	case "lin":
		r := lin{k: t.I}
		for i, a := range args {
			r = linComb(r, one, c.toLin(a), t.Coef[i])
		}
		return c.fromLin(r)
	case "*":
		r := args[0]
		for _, a := range args[1:] {
			r = c.Mul(r, a)
		}
		return r
	case "div":
		return c.Div(args[0], args[1])
	case "mod":
		return c.Mod(args[0], args[1])
	case "not":
		return c.Not(args[0])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "<=":
		return c.Le(args[0], args[1])
	case "=":
		return c.Eq(args[0], args[1])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "K":
		return c.ConstArr(t.Sort, args[0])
	case "app", "builtin":
		return c.mk(t.Op, t.Name, t.Sort, nil, nil, args)
	case "forall":
		var n int
		fmt.Sscanf(t.Name, "%d", &n)
		r := c.mk("forall", t.Name, Bool, nil, nil, args)
		r.Bound = hasFreeBound(r, map[int]bool{})
		return r
	}
	panic("rebuild " + t.Op)
}

// ForgetSelect drops a memoised selection (after InitV changed).
func (c *Ctx) ForgetSelect(a, i *T) { delete(c.selM, [2]int{a.ID, i.ID}) }
