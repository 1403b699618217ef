package vc

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"govc/smt"
)

const modPath = "github.com/vitelabs/go-vite/v2"

// Contract is a harness function that states a contract (or lemma) over real code.
type Contract struct {
	Name        string
	Harness     *ssa.Function
	Target      *ssa.Function // nil for lemmas
	TargetNm    string
	Props       []string
	Modular     bool
	MayPanic    bool
	Unroll      int
	Inline      map[string]bool
	Timeout     int
	Thorough    bool
	Bounded     int // >0: only a bounded check of this many loop iterations is claimed
	NoPow2Table bool
	PushDiv     bool
	ByteVals    bool // numbers kept as bytes: only their values matter
	NoInv       bool // unroll loops even where an invariant is given
	Trusted     bool
	Pkg         string
	File        string
	Gen         string
	Opts        map[string]string
	Replace     map[*ssa.Function]*ssa.Function // callees taken at an assumed contract, given as code
	Fix         map[string]int64                // parameter values of one case of a finite case analysis
}

type Invariant struct {
	Name string
	Fn   *ssa.Function
	Opts map[string]string
}

type Engine struct {
	Repo       string
	Prog       *ssa.Program
	Pkgs       []*packages.Package
	Contracts  []*Contract
	byTarget   map[*ssa.Function]*Contract
	invs       map[string]*Invariant // "fnstring#ord"
	specFns    map[*ssa.Function]bool
	loopMemo   map[*ssa.Function]*loopInfo
	mu         sync.Mutex
	bmu        sync.Mutex
	built      map[*ssa.Package]bool
	trivial    int
	Errors     []string
	globStores map[*ssa.Global]int
	gmu        sync.Mutex
}

type directives map[string][]string

func parseDirectives(cg *ast.CommentGroup) directives {
	d := directives{}
	if cg == nil {
		return d
	}
	for _, c := range cg.List {
		t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
		if strings.HasPrefix(t, "verif:") {
			t = strings.TrimPrefix(t, "verif:")
			f := strings.SplitN(t, " ", 2)
			v := ""
			if len(f) > 1 {
				v = strings.TrimSpace(f[1])
			}
			d[f[0]] = append(d[f[0]], v)
		}
	}
	return d
}

// Overlay maps /repo paths to contract file paths for the given contract packages.
func Overlay(repo, root string, only map[string]bool) (map[string]string, []string, error) {
	ov := map[string]string{}
	pk := map[string]bool{}
	add := func(dir string) error {
		return filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(dir, p)
			pkgdir := filepath.Dir(rel)
			if only != nil && !only[rel] && pkgdir != "zzverif" && !strings.HasPrefix(filepath.Base(rel), "zz_stub") {
				return nil
			}
			ov[filepath.Join(repo, rel)] = p
			pk[modPath+"/"+pkgdir] = true
			return nil
		})
	}
	if err := add(filepath.Join(root, "contracts")); err != nil {
		return nil, nil, err
	}
	var pl []string
	for p := range pk {
		pl = append(pl, p)
	}
	sort.Strings(pl)
	return ov, pl, nil
}

// FilesFor returns contract files mentioning a property (by directive), plus shared files.
func FilesFor(root string, prop string) (map[string]bool, error) {
	out := map[string]bool{}
	dir := filepath.Join(root, "contracts")
	err := filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//verif:file") {
				for _, f := range strings.Fields(strings.TrimPrefix(l, "//verif:file")) {
					if prop == "" || f == prop || f == "shared" {
						out[rel] = true
					}
				}
			}
		}
		return nil
	})
	return out, err
}

func NewEngine(repo string, ov map[string]string, pkgs []string, env []string) (*Engine, error) {
	overlay := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Fset:    fset,
		Overlay: overlay,
		Env:     env,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, filename, src, parser.ParseComments|parser.SkipObjectResolution)
		},
	}
	ps, err := packages.Load(cfg, pkgs...)
	if err != nil {
		return nil, err
	}
	e := &Engine{Repo: repo, Pkgs: ps, byTarget: map[*ssa.Function]*Contract{}, invs: map[string]*Invariant{}, specFns: map[*ssa.Function]bool{},
		loopMemo: map[*ssa.Function]*loopInfo{}, built: map[*ssa.Package]bool{}, globStores: map[*ssa.Global]int{}}
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				e.Errors = append(e.Errors, er.Error())
			}
		}
	})
	if len(e.Errors) > 0 {
		return e, fmt.Errorf("type errors: %s", strings.Join(e.Errors, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.GlobalDebug|ssa.InstantiateGenerics)
	e.Prog = prog
	return e, nil
}

func (e *Engine) isRepo(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

// build completes the package of fn; a function may be read only once its whole package is built
// (its blocks are visible, unfinished, to other goroutines before that).
func (e *Engine) build(fn *ssa.Function) {
	if fn.Pkg != nil {
		e.buildPkg(fn.Pkg)
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		e.buildPkg(fn.Origin().Pkg)
	}
}

func (e *Engine) buildPkg(p *ssa.Package) {
	e.bmu.Lock()
	defer e.bmu.Unlock()
	if !e.built[p] {
		p.Build()
		e.built[p] = true
	}
}

// Collect finds contracts, invariants and spec functions in overlay files.
func (e *Engine) Collect(ov map[string]string) error {
	for _, p := range e.Pkgs {
		sp := e.Prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for i, f := range p.Syntax {
			fname := p.CompiledGoFiles[i]
			if _, ok := ov[fname]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				dirs := parseDirectives(fd.Doc)
				if len(dirs) == 0 {
					continue
				}
				e.buildPkg(sp)
				obj := p.TypesInfo.Defs[fd.Name].(*types.Func)
				fn := e.Prog.FuncValue(obj)
				if _, ok := dirs["spec"]; ok {
					e.specFns[fn] = true
				}
				if iv, ok := dirs["inv"]; ok {
					for _, s := range iv {
						fs := strings.Fields(s)
						if len(fs) < 2 {
							return fmt.Errorf("bad inv directive %q", s)
						}
						tf := e.findFunc(sp, fs[0])
						if tf == nil {
							e.Errors = append(e.Errors, "invariant target not found: "+fs[0])
							continue
						}
						e.invs[tf.String()+"#"+fs[1]] = &Invariant{Name: fd.Name.Name, Fn: fn}
					}
				}
				tgt, isC := dirs["contract"]
				_, isL := dirs["lemma"]
				if isC || isL {
					ct := &Contract{Name: strings.TrimPrefix(p.PkgPath, modPath+"/") + "." + fd.Name.Name, Harness: fn, Pkg: p.PkgPath, File: fname, Inline: map[string]bool{}, Opts: map[string]string{}}
					if isC {
						ct.TargetNm = tgt[0]
						ct.Target = e.findFunc(sp, tgt[0])
						if ct.Target == nil {
							e.Errors = append(e.Errors, "contract target not found: "+p.PkgPath+"."+tgt[0])
							continue
						}
						if len(ct.Target.Params) == len(fn.Params) {
							e.byTarget[ct.Target] = ct
						}
					}
					for _, pr := range dirs["prop"] {
						ct.Props = append(ct.Props, strings.Fields(pr)...)
					}
					_, ct.Modular = dirs["modular"]
					_, ct.MayPanic = dirs["maypanic"]
					_, ct.Thorough = dirs["thorough"]
					_, ct.NoPow2Table = dirs["nopow2"]
					_, ct.PushDiv = dirs["pushdiv"]
					_, ct.NoInv = dirs["noinv"]
					_, ct.ByteVals = dirs["bytevals"]
					for _, s := range dirs["inline"] {
						for _, x := range strings.Fields(s) {
							ct.Inline[x] = true
						}
					}
					for _, s := range dirs["replace"] {
						f := strings.Fields(s)
						if len(f) != 2 {
							return fmt.Errorf("%s: bad replace directive", ct.Name)
						}
						from, to := e.findFunc(sp, f[0]), sp.Func(f[1])
						if from == nil || to == nil {
							e.Errors = append(e.Errors, "replace: function not found: "+s)
							continue
						}
						if ct.Replace == nil {
							ct.Replace = map[*ssa.Function]*ssa.Function{}
						}
						ct.Replace[from] = to
					}
					for _, s := range dirs["unroll"] {
						fmt.Sscan(s, &ct.Unroll)
					}
					for _, s := range dirs["timeout"] {
						fmt.Sscan(s, &ct.Timeout)
					}
					for _, s := range dirs["bounded"] {
						fmt.Sscan(s, &ct.Bounded)
					}
					for _, s := range dirs["gen"] {
						ct.Gen = s
					}
					if len(dirs["cases"]) > 0 {
						var pn string
						var lo, hi int64
						if k, _ := fmt.Sscan(dirs["cases"][0], &pn, &lo, &hi); k != 3 {
							return fmt.Errorf("%s: bad cases directive", ct.Name)
						}
						for v := lo; v <= hi; v++ {
							cc := *ct
							cc.Fix = map[string]int64{pn: v}
							cc.Name = fmt.Sprintf("%s[%s=%d]", ct.Name, pn, v)
							e.Contracts = append(e.Contracts, &cc)
						}
					} else {
						e.Contracts = append(e.Contracts, ct)
					}
				}
			}
		}
	}
	sort.Slice(e.Contracts, func(i, j int) bool { return e.Contracts[i].Name < e.Contracts[j].Name })
	return nil
}

// findFunc resolves "F", "T.M" or "(*T).M" within a package; "path:F" elsewhere.
func (e *Engine) findFunc(sp *ssa.Package, name string) *ssa.Function {
	if i := strings.Index(name, ":"); i >= 0 {
		path := modPath + "/" + name[:i]
		for _, p := range e.Prog.AllPackages() {
			if p.Pkg.Path() == path || p.Pkg.Path() == name[:i] {
				if p.Pkg.Path() == path {
					e.buildPkg(p)
				}
				return e.findFunc(p, name[i+1:])
			}
		}
		return nil
	}
	recv := ""
	ptr := false
	m := name
	if strings.HasPrefix(name, "(*") {
		j := strings.Index(name, ")")
		recv = name[2:j]
		m = name[j+2:]
		ptr = true
	} else if i := strings.Index(name, "."); i >= 0 {
		recv = name[:i]
		m = name[i+1:]
	}
	if recv == "" {
		return sp.Func(m)
	}
	t := sp.Type(recv)
	if t == nil {
		return nil
	}
	var tt types.Type = t.Type()
	if ptr {
		tt = types.NewPointer(tt)
	}
	sel := e.Prog.MethodSets.MethodSet(tt).Lookup(sp.Pkg, m)
	if sel == nil {
		return nil
	}
	return e.Prog.MethodValue(sel)
}

func (e *Engine) contractOf(fn *ssa.Function) *Contract { return e.byTarget[fn] }

func (e *Engine) invFor(fn *ssa.Function, lp *loop) *Invariant {
	return e.invs[fmt.Sprintf("%s#%d", fn.String(), lp.ord)]
}

func (e *Engine) newRun(ct *Contract) *Run {
	r := &Run{E: e, c: smt.NewCtx(), flats: flatMemo{}, heap0: map[string]*T{}, hsort: map[string]string{}, factSet: map[int]bool{},
		fnIDs: map[string]int64{}, tags: map[string]int64{}, strs: map[string]int64{}, subM: map[string]*T{}, globals: map[*ssa.Global]*T{},
		ginit: map[*ssa.Global]bool{}, axioms: map[string]bool{}, ct: ct, Notes: map[string]bool{}, Inlined: map[string]bool{}, InlFns: map[*ssa.Function]bool{}, Trusted: map[string]bool{},
		UsedCt: map[string]bool{}, specInf: map[*ssa.Function]*specInf{}, loopInv: map[string]bool{}}
	r.c.PushDiv = ct != nil && ct.PushDiv
	return r
}

// Verify generates the obligations of one contract.
func (e *Engine) Verify(ct *Contract, bounded int, skipInv bool) (r *Run, err error) {
	r = e.newRun(ct)
	r.bounded = bounded
	r.skipInv = skipInv || ct.NoInv
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				where := ""
				if n := len(r.stack); n > 0 {
					var fs []string
					for _, f := range r.stack {
						fs = append(fs, shortFn(f.fn))
					}
					where = " [in " + strings.Join(fs, " > ") + "]"
				}
				err = fmt.Errorf("unsupported: %s%s", u.msg, where)
				return
			}
			if b, ok := x.(invBind); ok {
				err = fmt.Errorf("invariant: %s", b.msg)
				return
			}
			if os.Getenv("GOVC_PANIC") == "" {
				err = fmt.Errorf("internal: %v", x)
				if os.Getenv("GOVC_TRACE") != "" {
					os.Stderr.Write(rdebug.Stack())
				}
				return
			}
			panic(x)
		}
	}()
	st := &State{pc: r.c.True, env: map[ssa.Value]Val{}, heaps: map[string]*T{}}
	r.rngSeq = 1 << 60 // everything so far is pre-state
	for _, p := range ct.Harness.Params {
		v := r.havoc(st, p.Type(), p.Name())
		if n, ok := ct.Fix[p.Name()]; ok {
			v = v1(r.c.I64(n))
		}
		r.params = append(r.params, v)
		// pointers are non-nil by default
		if _, ok := under(p.Type()).(*types.Pointer); ok {
			r.assumeAbs(r.c.Le(r.c.One, v.C[0]))
		}
	}
	r.rngSeq = r.c.SymSeq()
	vs := r.callFn(st, ct.Harness, r.params, nil, "contract")
	_ = vs
	r.Covers = append(r.Covers, r.absPC(st))
	r.CoverN = append(r.CoverN, len(r.facts))
	return r, nil
}
