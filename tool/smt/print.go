package smt

import (
	"fmt"
	"math/big"
	"strings"
)

// Printer renders a set of terms with sharing.
type Printer struct {
	refs map[int]int
	name map[int]string
	Out  strings.Builder
	syms map[string]bool
}

func NewPrinter() *Printer {
	return &Printer{refs: map[int]int{}, name: map[int]string{}, syms: map[string]bool{}}
}

func (p *Printer) count(t *T) {
	p.refs[t.ID]++
	if p.refs[t.ID] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a)
	}
	if t.Op == "sym" || t.Op == "app" {
		p.syms[t.Name] = true
	}
}

func bigStr(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (p *Printer) def(t *T) {
	if _, ok := p.name[t.ID]; ok {
		return
	}
	// iterative depth is fine: recursion
	for _, a := range t.Args {
		p.def(a)
	}
	if t.Bound || len(t.Args) == 0 || p.refs[t.ID] < 2 {
		return
	}
	s := p.render(t)
	n := fmt.Sprintf("d!%d", t.ID)
	fmt.Fprintf(&p.Out, "(define-fun %s () %s %s)\n", n, t.Sort, s)
	p.name[t.ID] = n
}

func (p *Printer) str(t *T) string {
	if n, ok := p.name[t.ID]; ok {
		return n
	}
	return p.render(t)
}

func (p *Printer) render(t *T) string {
	switch t.Op {
	case "const":
		return bigStr(t.I)
	case "true", "false":
		return t.Op
	case "sym":
		return "|" + t.Name + "|"
	case "bound":
		return "|" + t.Name + "|"
	case "lin":
		var parts []string
		if t.I.Sign() != 0 {
			parts = append(parts, bigStr(t.I))
		}
		for i, a := range t.Args {
			if t.Coef[i].Cmp(one) == 0 {
				parts = append(parts, p.str(a))
			} else {
				parts = append(parts, "(* "+bigStr(t.Coef[i])+" "+p.str(a)+")")
			}
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case "K":
		return "((as const " + t.Sort + ") " + p.str(t.Args[0]) + ")"
	case "forall":
		var n int
		f := strings.Split(t.Name, ":")
		fmt.Sscan(f[0], &n)
		var sb strings.Builder
		sb.WriteString("(forall (")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "(|%s| %s)", t.Args[i].Name, t.Args[i].Sort)
		}
		sb.WriteString(") ")
		body := p.str(t.Args[n])
		if len(f) > 1 {
			sb.WriteString("(! " + body)
			k := n + 1
			for _, c := range f[1:] {
				var m int
				fmt.Sscan(c, &m)
				sb.WriteString(" :pattern (")
				for j := 0; j < m; j++ {
					if j > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(p.str(t.Args[k]))
					k++
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(body)
		}
		sb.WriteString(")")
		return sb.String()
	}
	op := t.Op
	if op == "app" {
		op = "|" + t.Name + "|"
		if len(t.Args) == 0 {
			return op
		}
	}
	if op == "builtin" {
		op = t.Name
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(p.str(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *T) String() string {
	if t.Size > 400 {
		return fmt.Sprintf("<%s/%d size %d>", t.Op, t.ID, t.Size)
	}
	p := NewPrinter()
	s := p.render(t)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// Script renders declarations used + asserts.
func (c *Ctx) Script(asserts []*T) string {
	p := NewPrinter()
	for _, a := range asserts {
		p.count(a)
	}
	var body strings.Builder
	for _, a := range asserts {
		p.def(a)
		p.Out.WriteString("(assert " + p.str(a) + ")\n")
	}
	body.WriteString(p.Out.String())
	var out strings.Builder
	for _, d := range c.Decls {
		// only declare used names
		i := strings.IndexByte(d, '|')
		if i >= 0 {
			j := strings.IndexByte(d[i+1:], '|')
			if !p.syms[d[i+1:i+1+j]] {
				continue
			}
		}
		out.WriteString(d)
		out.WriteByte('\n')
	}
	out.WriteString(body.String())
	return out.String()
}

// ScriptWith renders asserts plus printable expressions for extra terms.
func (c *Ctx) ScriptWith(asserts []*T, terms []*T) (string, []string) {
	p := NewPrinter()
	for _, a := range asserts {
		p.count(a)
	}
	for _, a := range terms {
		p.count(a)
		p.refs[a.ID] += 2
	}
	for _, a := range asserts {
		p.def(a)
		p.Out.WriteString("(assert " + p.str(a) + ")\n")
	}
	var names []string
	for _, a := range terms {
		p.def(a)
		names = append(names, p.str(a))
	}
	var out strings.Builder
	for _, d := range c.Decls {
		i := strings.IndexByte(d, '|')
		if i >= 0 {
			j := strings.IndexByte(d[i+1:], '|')
			if !p.syms[d[i+1:i+1+j]] {
				continue
			}
		}
		out.WriteString(d)
		out.WriteByte('\n')
	}
	out.WriteString(p.Out.String())
	return out.String(), names
}
