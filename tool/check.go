package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"govc/vc"
)

type failure struct {
	Contract   string     `json:"contract"`
	Target     string     `json:"target"`
	Kind       string     `json:"kind"`
	Obligation string     `json:"obligation"`
	Pos        string     `json:"pos"`
	Status     string     `json:"solver_status"`
	Solver     string     `json:"solver"`
	Output     string     `json:"solver_output,omitempty"`
	Model      []*vc.Node `json:"model_args,omitempty"`
}

type ctResult struct {
	Contract   string         `json:"contract"`
	Target     string         `json:"function"`
	Mode       string         `json:"mode"` // proved | bounded(n) | degraded-bounded(n) | degraded-native | failed | known-finding
	Obls       int            `json:"obligations"`
	Discharged int            `json:"discharged"`
	Kinds      map[string]int `json:"by_kind"`
	Backends   map[string]int `json:"by_backend"`
	SolverS    float64        `json:"solver_s"`
	Inlined    int            `json:"functions_inlined"`
	UsedCt     []string       `json:"callee_contracts_used,omitempty"`
	Vacuous    bool           `json:"vacuous"`
	Note       string         `json:"note,omitempty"`
	fails      []failure
	inl        []string
	notes      []string
	trusted    []string
	consts     []string
	degraded   bool
	maypanic   bool
	pkg        string
	harness    string
	nonative   bool // assumed contracts stand in for callees: the harness cannot be run as it is
	fix        []int64 // pairs: parameter index, its value (contracts split by cases)
}

type finding struct {
	Property   string `json:"property"`
	Status     string `json:"status"` // known | fixed
	Contract   string `json:"contract"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
	Commit     string `json:"commit,omitempty"`
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// loadPruned loads the tree with the contract files overlaid; harness functions that no
// longer type-check against the current source are removed and reported.
func loadPruned(repo, root, prop, tmp string) (*vc.Engine, map[string]string, []string, error) {
	files, err := vc.FilesFor(root, prop)
	if err != nil {
		return nil, nil, nil, err
	}
	ov, pkgs, err := vc.Overlay(repo, root, files)
	if err != nil {
		return nil, nil, nil, err
	}
	var lost []string
	for try := 0; try < 12; try++ {
		var pl []string
		for _, p := range pkgs {
			if !strings.HasSuffix(p, "zzverif") {
				pl = append(pl, p)
			}
		}
		e, err := vc.NewEngine(repo, ov, pl, goEnv())
		if err == nil {
			if err := e.Collect(ov); err != nil {
				return nil, nil, nil, err
			}
			lost = append(lost, e.Errors...)
			return e, ov, lost, nil
		}
		if e == nil {
			return nil, nil, nil, err
		}
		// locate the declarations at fault
		type cut struct{ lo, hi int }
		cuts := map[string][]cut{}
		for _, m := range e.Errors {
			fn, line := splitPos(m)
			src, ok := ov[fn]
			if !ok {
				continue
			}
			b, _ := os.ReadFile(src)
			fs := token.NewFileSet()
			f, perr := parser.ParseFile(fs, src, b, parser.ParseComments)
			if perr != nil {
				return nil, nil, nil, perr
			}
			for _, d := range f.Decls {
				lo, hi := fs.Position(d.Pos()), fs.Position(d.End())
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
					lo = fs.Position(fd.Doc.Pos())
				}
				if lo.Line <= line && line <= hi.Line {
					name := "import/var declaration"
					if fd, ok := d.(*ast.FuncDecl); ok {
						name = fd.Name.Name
					}
					cuts[fn] = append(cuts[fn], cut{lo.Offset, hi.Offset})
					lost = append(lost, fmt.Sprintf("contract %s in %s no longer type-checks: %s", name, filepath.Base(src), m))
					break
				}
			}
		}
		if len(cuts) == 0 {
			return nil, nil, nil, err
		}
		for fn, cs := range cuts {
			b, _ := os.ReadFile(ov[fn])
			for _, c := range cs {
				for i := c.lo; i < c.hi; i++ {
					if b[i] != '\n' {
						b[i] = ' '
					}
				}
			}
			rel, _ := filepath.Rel(repo, fn)
			np := filepath.Join(tmp, "pruned", rel)
			os.MkdirAll(filepath.Dir(np), 0755)
			os.WriteFile(np, b, 0644)
			ov[fn] = np
		}
	}
	return nil, nil, nil, fmt.Errorf("contracts cannot be loaded")
}

func splitPos(m string) (string, int) {
	p := strings.SplitN(m, ":", 3)
	if len(p) < 3 {
		return "", 0
	}
	l, _ := strconv.Atoi(p[1])
	return p[0], l
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func targetName(ct *vc.Contract) string {
	if ct.Target == nil {
		return "(lemma)"
	}
	return strings.ReplaceAll(ct.Target.String(), "github.com/vitelabs/go-vite/v2/", "")
}

func solveRun(r *vc.Run, res *ctResult, fast, slow time.Duration) []*vc.Obl {
	var wg sync.WaitGroup
	for _, o := range r.Obls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			o.Solve(vc.Timing{Fast: fast, Slow: slow})
		}()
	}
	wg.Wait()
	var bad []*vc.Obl
	for _, o := range r.Obls {
		res.Obls++
		res.Kinds[o.Kind]++
		res.SolverS += o.Dur
		if o.Status == "unsat" || o.Status == "trivial" {
			res.Discharged++
			s := o.Solver
			if o.Status == "trivial" {
				s = "simplifier"
			}
			res.Backends[s]++
		} else {
			bad = append(bad, o)
		}
	}
	return bad
}

func record(res *ctResult, ct *vc.Contract, bad []*vc.Obl) {
	for i, o := range bad {
		f := failure{Contract: ct.Name, Target: targetName(ct), Kind: o.Kind, Obligation: o.Name, Pos: o.Pos, Status: o.Status, Solver: o.Solver, Output: firstLines(o.Out, 12)}
		if i < 4 {
			if m, err := o.Counterexample(15 * time.Second); err == nil {
				f.Model = m
			}
		}
		res.fails = append(res.fails, f)
	}
}

func runContract(e *vc.Engine, ct *vc.Contract, fast, slow time.Duration) *ctResult {
	res := &ctResult{Contract: ct.Name, Target: targetName(ct), Kinds: map[string]int{}, Backends: map[string]int{}, Mode: "proved", maypanic: ct.MayPanic, pkg: ct.Pkg, harness: ct.Harness.Name(), fix: fixArgs(ct), nonative: len(ct.Replace) > 0}
	if ct.Timeout > 0 {
		slow = time.Duration(ct.Timeout) * time.Second
	}
	if ct.Bounded > 0 {
		res.Mode = fmt.Sprintf("bounded(%d)", ct.Bounded)
	}
	fill := func(r *vc.Run) {
		res.inl = keys(r.Inlined)
		res.Inlined = len(res.inl)
		res.notes = keys(r.Notes)
		res.trusted = keys(r.Trusted)
		res.UsedCt = keys(r.UsedCt)
		res.consts = r.Consts()
	}
	r, err := e.Verify(ct, 0, false)
	var bad []*vc.Obl
	if r != nil {
		fill(r)
	}
	if err == nil {
		bad = solveRun(r, res, fast, slow)
		if len(bad) == 0 {
			if len(r.Obls) == 0 {
				res.Note = "no obligation generated"
				res.Vacuous = true
			}
			res.Vacuous = res.Vacuous || r.Vacuous(2*time.Second)
			if res.Vacuous {
				res.Mode = "failed"
				res.fails = append(res.fails, failure{Contract: ct.Name, Target: targetName(ct), Kind: "vacuity", Obligation: "harness-end-reachable", Status: "unsat", Output: "no input satisfies the precondition and reaches the end of the harness: the function cannot return normally"})
			}
			return res
		}
	}
	stale := err != nil
	usesInv := false
	if r != nil {
		usesInv = r.UsesInvariants()
	}
	for _, o := range bad {
		if o.Kind == "invariant" || o.Kind == "unwind" {
			stale = true
		}
	}
	if usesInv && len(bad) > 0 {
		stale = true
	}
	if stale && ct.Bounded == 0 {
		// The loop annotation does not fit the current source (or it cannot be translated):
		// the code itself is still checked, up to a stated bound.
		const k = 5
		why := ""
		if err != nil {
			why = err.Error()
		} else {
			why = "loop invariant not inductive for the current source: " + bad[0].Name + " at " + bad[0].Pos
		}
		res2 := &ctResult{Kinds: map[string]int{}, Backends: map[string]int{}}
		r2, err2 := e.Verify(ct, k, true)
		if err2 != nil {
			res.degraded = true
			res.Mode = "degraded-native"
			res.Note = why + "; bounded translation also failed: " + err2.Error()
			return res
		}
		fill(r2)
		bad2 := solveRun(r2, res2, fast, slow)
		var hard []*vc.Obl
		for _, o := range bad2 {
			if o.Kind != "unwind" {
				hard = append(hard, o)
			}
		}
		res.Obls, res.Discharged, res.Kinds, res.Backends = res2.Obls, res2.Discharged, res2.Kinds, res2.Backends
		res.SolverS += res2.SolverS
		if len(hard) == 0 {
			res.degraded = true
			res.Mode = fmt.Sprintf("degraded-bounded(%d)", k)
			res.Note = why
			return res
		}
		res.Note = why
		bad = hard
	}
	if err != nil && ct.Bounded > 0 {
		res.degraded = true
		res.Mode = "degraded-native"
		res.Note = err.Error()
		return res
	}
	res.Mode = "failed"
	record(res, ct, bad)
	return res
}

// ---- native replay

type native struct {
	repo, root, tmp string
	ov              map[string]string
	cts             []*ctResult
	once            sync.Once
	bin             string
	err             error
	log             string
}

func fixArgs(ct *vc.Contract) []int64 {
	var out []int64
	for i, p := range ct.Harness.Params {
		if v, ok := ct.Fix[p.Name()]; ok {
			out = append(out, int64(i), v)
		}
	}
	return out
}

func (n *native) build() {
	n.once.Do(func() {
		repl := map[string]string{}
		for k, v := range n.ov {
			repl[k] = v
		}
		repl[filepath.Join(n.repo, "zzverif/zz_drive.go")] = filepath.Join(n.root, "native/drive.go")
		bypkg := map[string][]*ctResult{}
		for _, c := range n.cts {
			bypkg[c.pkg] = append(bypkg[c.pkg], c)
		}
		main := "package main\n\nimport (\n\tzv \"github.com/vitelabs/go-vite/v2/zzverif\"\n"
		i := 0
		for p, cs := range bypkg {
			rel := strings.TrimPrefix(p, "github.com/vitelabs/go-vite/v2/")
			name := ""
			for k := range n.ov {
				if filepath.Dir(k) == filepath.Join(n.repo, rel) {
					b, _ := os.ReadFile(n.ov[k])
					fs := token.NewFileSet()
					if f, err := parser.ParseFile(fs, k, b, parser.PackageClauseOnly); err == nil {
						name = f.Name.Name
					}
				}
			}
			var sb strings.Builder
			fmt.Fprintf(&sb, "package %s\n\nimport zv \"github.com/vitelabs/go-vite/v2/zzverif\"\n\nfunc init() {\n", name)
			for _, c := range cs {
				fmt.Fprintf(&sb, "\tzv.Register(%q, %s, %v", c.Contract, c.harness, c.maypanic)
				for _, f := range c.fix {
					fmt.Fprintf(&sb, ", %d", f)
				}
				sb.WriteString(")\n")
			}
			sb.WriteString("}\n")
			fn := filepath.Join(n.tmp, fmt.Sprintf("reg%d.go", i))
			i++
			os.WriteFile(fn, []byte(sb.String()), 0644)
			repl[filepath.Join(n.repo, rel, "zz_register_gen.go")] = fn
			main += fmt.Sprintf("\t_ %q\n", p)
		}
		main += ")\n\nfunc main() { zv.Main() }\n"
		mf := filepath.Join(n.tmp, "main.go")
		os.WriteFile(mf, []byte(main), 0644)
		repl[filepath.Join(n.repo, "zzreplay/main.go")] = mf
		b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
		of := filepath.Join(n.tmp, "overlay.json")
		os.WriteFile(of, b, 0644)
		bin := filepath.Join(n.tmp, "zzreplay")
		ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
		defer cancel()
		gobin := "/opt/veriftools/go1.23.12/bin/go"
		cmd := exec.CommandContext(ctx, gobin, "build", "-overlay", of, "-o", bin, "./zzreplay")
		cmd.Dir = n.repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v: %s", err, firstLines(string(out), 20))
			return
		}
		n.bin = bin
	})
}

type natRes struct {
	Contract string            `json:"contract"`
	Found    bool              `json:"found"`
	Clause   string            `json:"clause"`
	Source   string            `json:"source"`
	Args     []json.RawMessage `json:"args"`
	Runs     int               `json:"runs"`
	Skipped  int               `json:"skipped"`
	Err      string            `json:"err"`
}

func (n *native) run(c *ctResult, models [][]*vc.Node, secs float64, seed int) natRes {
	if c.nonative {
		return natRes{Err: "the contract assumes contracts of callees; it has no native replay"}
	}
	n.build()
	if n.err != nil {
		return natRes{Err: n.err.Error()}
	}
	mf := ""
	if len(models) > 0 {
		f, _ := os.CreateTemp(n.tmp, "m*.json")
		b, _ := json.Marshal(models)
		f.Write(b)
		f.Close()
		mf = f.Name()
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs*float64(time.Second))+20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 12000000; exec \"$@\"", "sh", n.bin, "-c", c.Contract, "-t", fmt.Sprint(secs), "-seed", fmt.Sprint(seed), "-models", mf, "-consts", strings.Join(c.consts, ","))
	wd := filepath.Join(n.tmp, "wd")
	os.MkdirAll(wd, 0755)
	cmd.Dir = wd
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			var r natRes
			if json.Unmarshal([]byte(l[7:]), &r) == nil {
				return r
			}
		}
	}
	return natRes{Err: fmt.Sprintf("native run: %v %s", err, firstLines(out.String(), 5))}
}

func cmdCheck(repo, root, prop, tier string, args []string) int {
	t0 := time.Now()
	seed := envInt("VERIF_SEED", 1)
	tmp, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println("cannot create scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.Setenv("GOVC_TMP", tmp)
	fast, slow := 10*time.Second, 60*time.Second
	nsecs := 12.0
	if tier == "thorough" {
		slow = 240 * time.Second
		nsecs = 40
	}
	vc.Deadline = t0.Add(420 * time.Second)
	if tier == "thorough" {
		vc.Deadline = t0.Add(3600 * time.Second)
	}
	evPath := filepath.Join(root, "evidence", prop+".json")
	repDir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(repDir, 0755)

	e, ov, lost, err := loadPruned(repo, root, prop, tmp)
	if err != nil {
		rp := filepath.Join(repDir, prop+".load.json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "obligation": "source-loads", "output": err.Error()}, "", " ")
		os.WriteFile(rp, b, 0644)
		writeEvidence(evPath, prop, tier, seed, nil, lost, nil, nil, time.Since(t0), 1, root)
		fmt.Println("the source could not be loaded:", err)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		return 1
	}
	loadS := time.Since(t0)
	var cts []*vc.Contract
	for _, ct := range e.Contracts {
		if has(ct.Props, prop) && (!ct.Thorough || tier == "thorough") {
			cts = append(cts, ct)
		}
	}
	results := make([]*ctResult, len(cts))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for i, ct := range cts {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			results[i] = runContract(e, ct, fast, slow)
		}()
	}
	wg.Wait()
	var known []finding
	if b, err := os.ReadFile(filepath.Join(root, "known-findings.json")); err == nil {
		json.Unmarshal(b, &known)
	}
	isKnown := func(f failure) *finding {
		for i := range known {
			k := &known[i]
			if k.Status == "known" && k.Property == prop && k.Contract == f.Contract && k.Obligation == f.Obligation {
				return k
			}
		}
		return nil
	}
	nat := &native{repo: repo, root: root, tmp: tmp, ov: ov, cts: results}
	violations := 0
	type viol struct {
		path  string
		found bool
	}
	var vs []viol
	var natNotes []string
	var mu sync.Mutex
	var nwg sync.WaitGroup
	for _, res := range results {
		var fs []failure
		for _, f := range res.fails {
			if k := isKnown(f); k != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				res.Mode = "known-finding"
				continue
			}
			fs = append(fs, f)
		}
		if len(fs) == 0 && !res.degraded {
			continue
		}
		nwg.Add(1)
		go func() {
			defer nwg.Done()
			var models [][]*vc.Node
			for _, f := range fs {
				if f.Model != nil {
					models = append(models, f.Model)
				}
			}
			nr := nat.run(res, models, nsecs, seed)
			mu.Lock()
			defer mu.Unlock()
			natNotes = append(natNotes, fmt.Sprintf("%s: native replay of the contract: %d runs, %d outside the precondition, failing input found: %v %s", res.Contract, nr.Runs, nr.Skipped, nr.Found, nr.Err))
			if nr.Found {
				// a failure recorded as known does not count
				for _, k := range known {
					if k.Status == "known" && k.Property == prop && k.Contract == res.Contract && k.Obligation == nr.Clause {
						nr.Found = false
					}
				}
			}
			if len(fs) == 0 && !nr.Found {
				return
			}
			violations++
			rp := filepath.Join(repDir, fmt.Sprintf("%s.%s.json", prop, strings.ReplaceAll(strings.ReplaceAll(res.Contract, "/", "_"), ".", "_")))
			m := map[string]interface{}{"property": prop, "contract": res.Contract, "function": res.Target, "failed_obligations": fs, "note": res.Note,
				"native": nr, "native_replay": fmt.Sprintf("%s/run.sh replay %s", root, rp)}
			b, _ := json.MarshalIndent(m, "", " ")
			os.WriteFile(rp, b, 0644)
			for _, f := range fs {
				fmt.Printf("FAILED %s: %s %q at %s (%s)\n", f.Contract, f.Kind, f.Obligation, f.Pos, f.Status)
			}
			if nr.Found {
				fmt.Printf("  failing input (%s): clause %q\n", nr.Source, nr.Clause)
			}
			vs = append(vs, viol{rp, nr.Found})
		}()
	}
	nwg.Wait()
	dead := len(cts) == 0
	if dead {
		violations++
		rp := filepath.Join(repDir, prop+".lost.json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "obligation": "contracts-present", "lost": lost}, "", " ")
		os.WriteFile(rp, b, 0644)
		vs = append(vs, viol{rp, false})
	}
	writeEvidence(evPath, prop, tier, seed, results, lost, natNotes, e, time.Since(t0), violations, root)
	tot, dis := 0, 0
	for _, r := range results {
		tot += r.Obls
		dis += r.Discharged
		if r.Mode != "proved" {
			fmt.Printf("%s: %s %s\n", r.Contract, r.Mode, r.Note)
		}
	}
	for _, l := range lost {
		fmt.Println("LOST", l)
	}
	fmt.Printf("%s %s: %d contracts, %d/%d obligations discharged, load %.1fs total %.1fs\n", prop, tier, len(results), dis, tot, loadS.Seconds(), time.Since(t0).Seconds())
	sort.Slice(vs, func(i, j int) bool {
		return vs[i].found && !vs[j].found || (vs[i].found == vs[j].found && vs[i].path < vs[j].path)
	})
	for _, v := range vs {
		if v.found {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, v.path)
		}
	}
	if len(vs) > 0 {
		return 1
	}
	return 0
}

func writeEvidence(path, prop, tier string, seed int, results []*ctResult, lost, natNotes []string, e *vc.Engine, wall time.Duration, violations int, root string) {
	tot, dis := 0, 0
	solver := 0.0
	back := map[string]int{}
	kinds := map[string]int{}
	inl := map[string]bool{}
	asm := map[string]bool{}
	tr := map[string]bool{}
	var under, bounded, degraded []string
	for _, r := range results {
		tot += r.Obls
		dis += r.Discharged
		solver += r.SolverS
		for k, v := range r.Backends {
			back[k] += v
		}
		for k, v := range r.Kinds {
			kinds[k] += v
		}
		for _, f := range r.inl {
			if strings.Contains(f, "go-vite") && !strings.Contains(f, "zzverif") {
				inl[strings.ReplaceAll(f, "github.com/vitelabs/go-vite/v2/", "")] = true
			}
		}
		for _, n := range r.notes {
			asm[n] = true
		}
		for _, n := range r.trusted {
			tr[n] = true
		}
		under = append(under, r.Target)
		if strings.HasPrefix(r.Mode, "bounded") {
			bounded = append(bounded, r.Contract+" "+r.Mode)
		}
		if r.degraded {
			degraded = append(degraded, r.Contract+" "+r.Mode+": "+r.Note)
		}
	}
	sort.Strings(under)
	tb := []string{
		"govc (/verif/tool): translation of Go SSA to SMT, the memory model and the loop/contract rules",
		"golang.org/x/tools/go/ssa and the Go 1.23 type checker",
		"z3 5.x / z3 4.8 / cvc5 1.1 (an obligation counts when one of them answers unsat)",
		"math/big methods are taken at their documented mathematical meaning",
	}
	for _, t := range keys(tr) {
		tb = append(tb, "assumed: "+t)
	}
	cov := map[string]interface{}{
		"obligations": tot, "discharged": dis,
		"checker_cmd":               fmt.Sprintf("%s/bin/govc check -prop %s -tier %s", root, prop, tier),
		"trusted_base":              tb,
		"functions_under_contract":  under,
		"functions_verified_inline": keys(inl),
		"contracts":                 results,
		"by_kind":                   kinds,
		"by_backend":                back,
		"solver_s":                  solver,
		"bounded_contracts":         bounded,
		"degraded_contracts":        degraded,
		"lost_contracts":            lost,
		"native_replay":             natNotes,
	}
	assumptions := append(keys(asm),
		"single-threaded execution of each verified function (locks are no-ops)",
		"memory is large enough: allocation never fails, slice lengths stay below 2^48",
		"append never writes into the spare capacity of a slice another live slice can see, unless that is modelled explicitly (DESIGN.md, memory model)")
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions, "wall_s": wall.Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	os.WriteFile(path, b, 0644)
}

// cmdFuzz runs every contract of a property natively on random inputs (self-check of the
// translation: a proved contract must also hold when executed).
func cmdFuzz(repo, root, prop string, secs float64, filt string) int {
	tmp, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(tmp)
	e, ov, lost, err := loadPruned(repo, root, prop, tmp)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, l := range lost {
		fmt.Println("LOST", l)
	}
	var rs []*ctResult
	for _, ct := range e.Contracts {
		if prop == "" || has(ct.Props, prop) {
			rs = append(rs, &ctResult{Contract: ct.Name, maypanic: ct.MayPanic, pkg: ct.Pkg, harness: ct.Harness.Name(), fix: fixArgs(ct), nonative: len(ct.Replace) > 0})
		}
	}
	nat := &native{repo: repo, root: root, tmp: tmp, ov: ov, cts: rs}
	bad := 0
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, r := range rs {
		if filt != "" && !strings.Contains(r.Contract, filt) {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			nr := nat.run(r, nil, secs, 1)
			s := "ok"
			if nr.Found {
				s = "FAIL " + nr.Clause
				bad++
				b, _ := json.Marshal(nr.Args)
				s += " " + string(b)
			}
			fmt.Printf("%-50s runs %d skipped %d %s %s\n", r.Contract, nr.Runs, nr.Skipped, s, nr.Err)
		}()
	}
	wg.Wait()
	if bad > 0 {
		return 1
	}
	return 0
}

// cmdReplay executes the failing input stored in a replay file against the current source.
func cmdReplay(repo, root, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var m struct {
		Property string `json:"property"`
		Contract string `json:"contract"`
		Native   struct {
			Args json.RawMessage `json:"args"`
		} `json:"native"`
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Println(err)
		return 2
	}
	if len(m.Native.Args) == 0 || string(m.Native.Args) == "null" {
		fmt.Println("the replay file carries no failing input; re-run the check to see the failed obligation")
		return 2
	}
	tmp, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(tmp)
	e, ov, _, err := loadPruned(repo, root, m.Property, tmp)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, ct := range e.Contracts {
		if ct.Name != m.Contract {
			continue
		}
		r := &ctResult{Contract: ct.Name, maypanic: ct.MayPanic, pkg: ct.Pkg, harness: ct.Harness.Name(), fix: fixArgs(ct), nonative: len(ct.Replace) > 0}
		nat := &native{repo: repo, root: root, tmp: tmp, ov: ov, cts: []*ctResult{r}}
		var args []*vc.Node
		json.Unmarshal(m.Native.Args, &args)
		nr := nat.run(r, [][]*vc.Node{args}, 0, 1)
		if nr.Found {
			fmt.Printf("reproduced: %s clause %q\n", ct.Name, nr.Clause)
			return 1
		}
		fmt.Println("not reproduced", nr.Err)
		return 0
	}
	fmt.Println("no such contract")
	return 2
}
