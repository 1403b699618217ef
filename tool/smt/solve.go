package smt

import (
	"bytes"
	"context"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type Result struct {
	Status string // unsat, sat, unknown
	Solver string
	Out    string
	Dur    time.Duration
}

type Solver struct {
	Name string
	Args []string
	Pre  string // prelude options
}

var Solvers = map[string]Solver{
	"z3new":  {Name: "z3-new", Args: []string{"z3-new", "-smt2"}},
	"z3":     {Name: "z3-4.8", Args: []string{"z3", "-smt2"}},
	"z3nla":  {Name: "z3-new/nla", Args: []string{"z3-new", "-smt2", "smt.arith.solver=6", "smt.mbqi=false", "smt.random_seed=7"}},
	"z3auto": {Name: "z3-new/ematch", Args: []string{"z3-new", "-smt2", "smt.auto_config=false", "smt.mbqi=false", "smt.case_split=3", "smt.relevancy=2"}},
	"z3a2":   {Name: "z3-new/arith2", Args: []string{"z3-new", "-smt2", "smt.arith.solver=2"}},
	"cvc5":   {Name: "cvc5", Args: []string{"cvc5", "--lang=smt2", "--nl-ext-tplanes"}, Pre: "(set-logic ALL)\n"},
}

var sem = make(chan struct{}, 8)

func runOne(ctx context.Context, s Solver, script string, dir string, tmo time.Duration) Result {
	f, err := os.CreateTemp(dir, "q*.smt2")
	if err != nil {
		return Result{Status: "unknown", Out: err.Error()}
	}
	f.WriteString(s.Pre + script)
	f.Close()
	defer os.Remove(f.Name())
	select {
	case sem <- struct{}{}:
	case <-ctx.Done():
		return Result{Status: "unknown", Solver: s.Name, Out: "cancelled"}
	}
	defer func() { <-sem }()
	cctx, cancel := context.WithTimeout(ctx, tmo)
	defer cancel()
	// memory limit through prlimit-like shell ulimit
	args := append([]string{}, s.Args...)
	args = append(args, f.Name())
	cmd := exec.CommandContext(cctx, "/bin/sh", "-c", "ulimit -v 3600000; exec \"$@\"", "sh")
	cmd.Args = append(cmd.Args, args...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.WaitDelay = time.Second
	t0 := time.Now()
	_ = cmd.Run()
	d := time.Since(t0)
	o := out.String()
	st := "unknown"
	first := strings.TrimSpace(o)
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	switch strings.TrimSpace(first) {
	case "unsat":
		st = "unsat"
	case "sat":
		st = "sat"
	}
	return Result{Status: st, Solver: s.Name, Out: o, Dur: d}
}

// Check races solvers on the script (asserts only); first definite answer wins.
func Check(script string, names []string, tmo time.Duration) Result {
	dir := os.TempDir()
	if d := os.Getenv("GOVC_TMP"); d != "" {
		dir = d
	}
	dir = filepath.Clean(dir)
	script += "(check-sat)\n"
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan Result, len(names))
	var wg sync.WaitGroup
	for _, n := range names {
		s := Solvers[n]
		wg.Add(1)
		go func() {
			defer wg.Done()
			ch <- runOne(ctx, s, script, dir, tmo)
		}()
	}
	best := Result{Status: "unknown"}
	for range names {
		r := <-ch
		if r.Status != "unknown" {
			cancel()
			go wg.Wait()
			return r
		}
		best.Out += r.Solver + ": " + trim(r.Out, 300) + "\n"
		best.Dur += r.Dur
		best.Solver += r.Solver + " "
	}
	return best
}

// Model asks for values of terms.
func Model(script string, exprs []string, name string, tmo time.Duration) (Result, string) {
	s := Solvers[name]
	script = "(set-option :produce-models true)\n" + script + "(check-sat)\n(get-value (" + strings.Join(exprs, " ") + "))\n"
	dir := os.TempDir()
	if d := os.Getenv("GOVC_TMP"); d != "" {
		dir = d
	}
	r := runOne(context.Background(), s, script, dir, tmo)
	i := strings.IndexByte(r.Out, '\n')
	if i < 0 {
		return r, ""
	}
	return r, r.Out[i+1:]
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
