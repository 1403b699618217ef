package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"govc/vc"
)

func goEnv() []string {
	env := os.Environ()
	out := []string{}
	for _, e := range env {
		if strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOROOT=") {
			continue
		}
		out = append(out, e)
	}
	gobin := os.Getenv("GOVC_GOBIN")
	if gobin == "" {
		gobin = "/opt/veriftools/go1.23.12/bin"
	}
	return append(out, "PATH="+gobin+":"+os.Getenv("PATH"), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=1")
}

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "check", "fuzz", "replay":
			fs := flag.NewFlagSet("check", flag.ExitOnError)
			repo := fs.String("repo", "/repo", "repository")
			root := fs.String("root", "/verif", "verification root")
			prop := fs.String("prop", "", "property")
			tier := fs.String("tier", "quick", "tier")
			secs := fs.Float64("t", 3, "seconds")
			filt := fs.String("contract", "", "contract substring")
			file := fs.String("file", "", "replay file")
			fs.Parse(os.Args[2:])
			switch os.Args[1] {
			case "check":
				os.Exit(cmdCheck(*repo, *root, *prop, *tier, fs.Args()))
			case "fuzz":
				os.Exit(cmdFuzz(*repo, *root, *prop, *secs, *filt))
			case "replay":
				os.Exit(cmdReplay(*repo, *root, *file))
			}
		}
	}
	repo := flag.String("repo", "/repo", "repository")
	root := flag.String("root", "/verif", "verification root")
	prop := flag.String("prop", "", "property")
	filt := flag.String("contract", "", "regexp on contract names")
	verbose := flag.Bool("v", false, "verbose")
	fast := flag.Int("fast", 4, "first-stage solver timeout (s)")
	slow := flag.Int("slow", 30, "second-stage solver timeout (s)")
	bounded := flag.Int("bounded", 0, "bounded run")
	flag.Parse()
	t0 := time.Now()
	files, err := vc.FilesFor(*root, *prop)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	ov, pkgs, err := vc.Overlay(*repo, *root, files)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var pl []string
	for _, p := range pkgs {
		if !strings.HasSuffix(p, "zzverif") {
			pl = append(pl, p)
		}
	}
	e, err := vc.NewEngine(*repo, ov, pl, goEnv())
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if err := e.Collect(ov); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, x := range e.Errors {
		fmt.Println("note:", x)
	}
	fmt.Printf("loaded in %.1fs, %d contracts\n", time.Since(t0).Seconds(), len(e.Contracts))
	re := regexp.MustCompile(*filt)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	var mu sync.Mutex
	bad := 0
	for _, ct := range e.Contracts {
		if !re.MatchString(ct.Name) {
			continue
		}
		if *prop != "" {
			ok := false
			for _, p := range ct.Props {
				if p == *prop {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(ct *vc.Contract) {
			defer wg.Done()
			defer func() { <-sem }()
			t1 := time.Now()
			r, err := e.Verify(ct, *bounded, false)
			if err != nil {
				mu.Lock()
				fmt.Printf("%-50s ERROR %v\n", ct.Name, err)
				bad++
				mu.Unlock()
				return
			}
			gen := time.Since(t1)
			var w2 sync.WaitGroup
			for _, o := range r.Obls {
				w2.Add(1)
				go func() {
					defer w2.Done()
					o.Solve(vc.Timing{Fast: time.Duration(*fast) * time.Second, Slow: time.Duration(*slow) * time.Second})
				}()
			}
			w2.Wait()
			nok := 0
			var msgs []string
			for _, o := range r.Obls {
				if o.Status == "unsat" || o.Status == "trivial" {
					nok++
					if *verbose {
						msgs = append(msgs, fmt.Sprintf("   ok   %-10s %-40s %s %s %.2fs", o.Kind, o.Name, o.Pos, o.Solver, o.Dur))
					}
				} else {
					msgs = append(msgs, fmt.Sprintf("   FAIL %-10s %-40s %s %s %s %.2fs %s", o.Kind, o.Name, o.Pos, o.Status, o.Solver, o.Dur, strings.TrimSpace(firstLines(o.Out, 2))))
				}
			}
			vac := r.Vacuous(2 * time.Second)
			mu.Lock()
			if nok < len(r.Obls) || vac {
				bad++
			}
			fmt.Printf("%-50s %d/%d gen %.1fs total %.1fs vacuous=%v\n", ct.Name, nok, len(r.Obls), gen.Seconds(), time.Since(t1).Seconds(), vac)
			for _, m := range msgs {
				fmt.Println(m)
			}
			if *verbose {
				for n := range r.Notes {
					fmt.Println("   note:", n)
				}
				for n := range r.Trusted {
					fmt.Println("   trusted:", n)
				}
			}
			mu.Unlock()
		}(ct)
	}
	wg.Wait()
	fmt.Printf("done in %.1fs, %d bad\n", time.Since(t0).Seconds(), bad)
	_ = filepath.Join
	if bad > 0 {
		os.Exit(1)
	}
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}
