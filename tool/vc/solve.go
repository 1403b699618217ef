package vc

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"govc/smt"
)

// Script builds the refutation query of an obligation.
func (o *Obl) Script() string {
	r := o.Run
	r.smu.Lock()
	defer r.smu.Unlock()
	as := append([]*T{}, r.facts[:o.NFact]...)
	as = append(as, o.PC, r.c.Not(o.Goal))
	as = r.relevant(as, 2)
	// the universally quantified facts, instantiated at the witness against a quantified goal
	seen := map[int]bool{}
	for _, k := range r.witnesses(o.Goal) {
		for _, f := range as[:len(as):len(as)] {
			if g := r.instantiate(f, k); g != nil && !g.IsTrue() && !seen[g.ID] {
				seen[g.ID] = true
				as = append(as, g)
			}
		}
	}
	return r.c.Script(as)
}

func (r *Run) witnesses(goal *T) []*T {
	var ks []*T
	var f func(t *T, d int)
	f = func(t *T, d int) {
		if k := r.wit[t.ID]; k != nil {
			ks = append(ks, k)
		}
		if d > 0 && (t.Op == "and" || t.Op == "or") {
			for _, a := range t.Args {
				f(a, d-1)
			}
		}
	}
	f(goal, 4)
	return ks
}

// instantiate weakens f by replacing its positive universal quantifiers over one integer by their
// instance at k; nil when it has none.
func (r *Run) instantiate(f, k *T) *T {
	c := r.c
	switch f.Op {
	case "forall":
		if (f.Name != "1" && !strings.HasPrefix(f.Name, "1:")) || f.Args[0].Sort != smt.Int {
			return nil
		}
		m := map[int]*T{f.Args[0].ID: k}
		g := c.Subst(f.Args[1], m)
		if t := r.qtyped[f.ID]; t != nil {
			if t = c.Subst(t, m); !t.Bound {
				g = c.And(g, t)
			}
		}
		return g
	case "and", "or":
		hit := false
		args := make([]*T, len(f.Args))
		for i, a := range f.Args {
			args[i] = a
			if g := r.instantiate(a, k); g != nil {
				args[i] = g
				hit = true
			}
		}
		if !hit {
			return nil
		}
		if f.Op == "and" {
			return c.And(args...)
		}
		return c.Or(args...)
	}
	return nil
}

// relevant keeps the last k asserts and every fact connected to them.
func (r *Run) relevant(as []*T, k int) []*T {
	n := len(as)
	if n < 40 {
		return as
	}
	names := make([][]string, n)
	for i, a := range as {
		names[i] = r.symsOf(a)
	}
	have := map[string]bool{}
	keep := make([]bool, n)
	for i := n - k; i < n; i++ {
		keep[i] = true
		for _, s := range names[i] {
			have[s] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for i := 0; i < n; i++ {
			if keep[i] {
				continue
			}
			hit := len(names[i]) == 0
			for _, s := range names[i] {
				if have[s] {
					hit = true
					break
				}
			}
			if hit {
				keep[i] = true
				changed = true
				for _, s := range names[i] {
					have[s] = true
				}
			}
		}
	}
	var out []*T
	for i := range as {
		if keep[i] {
			out = append(out, as[i])
		}
	}
	return out
}

var symMu sync.Mutex

func (r *Run) symsOf(t *T) []string {
	seen := map[int]bool{}
	set := map[string]bool{}
	var f func(t *T)
	f = func(t *T) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == "sym" {
			set[t.Name] = true
		}
		if t.Op == "app" && len(t.Args) == 0 {
			set[t.Name] = true
		}
		if t.Op == "app" && t.Bound {
			set["app:"+t.Name] = true
		}
		if t.Op == "app" && !t.Bound {
			set["app:"+t.Name] = true
		}
		for _, a := range t.Args {
			f(a)
		}
	}
	f(t)
	var out []string
	for s := range set {
		out = append(out, s)
	}
	return out
}

var stage2 = make(chan struct{}, 1)

// Deadline bounds the second solving stage of a whole run.
var Deadline time.Time

type Timing struct {
	Fast, Slow time.Duration
}

// Solve decides one obligation.
func (o *Obl) Solve(tm Timing) {
	if o.Status == "trivial" {
		return
	}
	s := o.Script()
	t0 := time.Now()
	hasBV := strings.Contains(s, "int2bv")
	fast := []string{"z3new"}
	res := smt.Check(s, fast, tm.Fast)
	if res.Status == "unknown" {
		stage2 <- struct{}{}
		defer func() { <-stage2 }()
		left := time.Until(Deadline)
		if Deadline.IsZero() {
			left = time.Hour
		}
		if left < 2*time.Second {
			o.Dur = time.Since(t0).Seconds()
			o.Status, o.Solver, o.Out = "unknown", res.Solver, "time budget of the run exhausted\n"+res.Out
			return
		}
		if tm.Slow > left {
			tm.Slow = left
		}
		if o.Run.nUnknown > 0 && tm.Slow > 20*time.Second {
			tm.Slow = 20 * time.Second
		}
		t0 = time.Now()
		names := []string{"z3new", "z3", "cvc5", "z3auto", "z3nla", "z3a2"}
		if hasBV {
			names = []string{"z3new", "z3", "z3a2"}
		}
		res = smt.Check(s, names, tm.Slow)
		if res.Status == "unknown" {
			o.Run.nUnknown++
		}
	}
	o.Dur = time.Since(t0).Seconds()
	o.Status = res.Status
	o.Solver = res.Solver
	o.Out = res.Out
	if dir := os.Getenv("GOVC_DUMP"); dir != "" && res.Status != "unsat" {
		os.MkdirAll(dir, 0755)
		fn := filepath.Join(dir, fmt.Sprintf("%s.%s.%d.smt2", strings.ReplaceAll(o.Run.ct.Name, "/", "_"), strings.ReplaceAll(o.Name, "/", "_"), o.NFact))
		os.WriteFile(fn, []byte(s+"(check-sat)\n(get-model)\n"), 0644)
	}
}

// Vacuous reports whether the end of the harness is provably unreachable.
func (r *Run) Vacuous(tmo time.Duration) bool {
	for i, cv := range r.Covers {
		as := append([]*T{}, r.facts[:r.CoverN[i]]...)
		as = append(as, cv)
		if cv.IsFalse() {
			return true
		}
		r.smu.Lock()
		scr := r.c.Script(as)
		r.smu.Unlock()
		res := smt.Check(scr, []string{"z3new"}, tmo)
		if res.Status == "unsat" {
			return true
		}
	}
	return false
}
