package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	fRepo    = flag.String("repo", "/repo", "repository under verification")
	fSpec    = flag.String("contracts", "/verif/contracts", "contract directory")
	fFn      = flag.String("fn", "", "only functions whose key contains this")
	fProp    = flag.String("prop", "", "only obligations of this property")
	fV       = flag.Bool("v", false, "verbose")
	fQuick   = flag.Int("quick", 3000, "milliseconds for the incremental solver")
	fSlow    = flag.Int("slow", 10, "seconds for the portfolio")
	fSec     = flag.Int("sec", 300, "seconds per function")
	fDump    = flag.String("dump", "", "directory for failed scripts")
	fTrace   = flag.String("trace", "", "SMT trace file")
	fJobs    = flag.Int("j", runtime.NumCPU(), "parallel functions")
	fSummary = flag.Bool("all", false, "list every obligation")
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		exe, _ := os.Executable()
		root := envOr("VERIF_ROOT", filepath.Dir(filepath.Dir(exe)))
		seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
		os.Setenv("VERIF_DEBUG", "1")
		if in := runReplay(root, envOr("VERIF_REPO", "/repo"), os.Args[2], seed, 240); in != "" {
			fmt.Print(in)
			os.Exit(1)
		}
		fmt.Println("no failing input found")
		os.Exit(0)
	}
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Args = append(os.Args[:1], os.Args[2:]...)
		os.Exit(checkMain())
	}
	if len(os.Args) > 1 && os.Args[1] == "selftest" {
		exe, _ := os.Executable()
		os.Exit(selftestMain(envOr("VERIF_ROOT", filepath.Dir(filepath.Dir(exe)))))
	}
	flag.Parse()
	t0 := time.Now()
	P, err := Load(*fRepo, readLayout(*fSpec))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, n := range P.renamed {
		fmt.Println("renamed", n)
	}
	if flag.Arg(0) == "layout" {
		b, _ := json.MarshalIndent(repoLayout(P.pkgs), "", " ")
		if err := os.WriteFile(filepath.Join(*fSpec, "layout.json"), append(b, '\n'), 0644); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return
	}
	if flag.Arg(0) == "list" {
		for _, k := range sortedKeys(P.funcs) {
			fmt.Println(k)
		}
		return
	}
	audit := flag.Arg(0) == "audit"
	if flag.Arg(0) == "ssa" {
		if fn := P.funcs[*fFn]; fn != nil {
			fn.WriteTo(os.Stdout)
		}
		return
	}
	S, err := ParseSpecDir(*fSpec)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	cfg := &Config{quickMS: *fQuick, slowSec: *fSlow, maxSteps: 200000, verbose: *fV, dumpDir: *fDump, fnSec: *fSec, audit: audit}
	var keys []string
	for _, k := range sortedKeys(S.Funcs) {
		c := S.Funcs[k]
		if c.Extern || !strings.Contains(k, *fFn) || (*fProp != "" && !isIn(c.Props, *fProp)) {
			continue
		}
		keys = append(keys, k)
	}
	rs := verifyAll(P, S, cfg, keys, *fProp, *fJobs)
	if strings.Contains("lemma", *fFn) {
		if r := proveLemmas(P, S, cfg, *fProp); r != nil {
			rs = append(rs, r)
		}
	}
	bad := 0
	for _, r := range rs {
		n, d, f := 0, 0, 0
		for _, o := range r.Obls {
			n += o.N
			d += o.Done
			f += len(o.Fails)
		}
		st := "ok"
		if f > 0 || r.Err != "" || r.Vacuous != "" {
			st = "FAIL"
			bad++
		}
		if r.Retried {
			r.Vacuous = " (second attempt)" + r.Vacuous
		}
		fmt.Printf("%-4s %-46s obl %d inst %d/%d paths %d ret %d panic %d loops %d/%d %.1fs %s%s\n", st, r.Fn, len(r.Obls), d, n, r.Paths, r.Normal, r.Panics, r.Loops, r.Invs, r.Wall, r.Err, r.Vacuous)
		for _, a := range r.Audit {
			fmt.Println("     AUDIT " + a)
		}
		for _, o := range r.Obls {
			if len(o.Fails) > 0 {
				fmt.Printf("     FAIL %s %v x%d: %s [%s]\n", o.Label, o.Tags, len(o.Fails), o.Fails[0].Desc, o.Fails[0].Result)
				fmt.Printf("          %s\n", strings.Join(o.Fails[0].Trace, " "))
			} else if *fSummary {
				fmt.Printf("     %s %v %d %v\n", o.Label, o.Tags, o.N, o.By)
			}
		}
	}
	fmt.Printf("%d functions, %d bad, %d queries, %d portfolio, solver %.1fs, wall %.1fs, solver errors %d\n", len(rs), bad, nQueries, nFallback, float64(solverNano)/1e9, time.Since(t0).Seconds(), nSolverErr)
	if bad > 0 {
		os.Exit(1)
	}
}

func verifyAll(P *Program, S *Spec, cfg *Config, keys []string, want string, jobs int) []*Result {
	rs := make([]*Result, len(keys))
	var wg sync.WaitGroup
	sem := make(chan bool, jobs)
	for i, k := range keys {
		i, k := i, k
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			rs[i] = verifyTwice(P, S, cfg, k, want)
		}()
	}
	wg.Wait()
	sort.Slice(rs, func(i, j int) bool { return rs[i].Fn < rs[j].Fn })
	return rs
}

// verifyTwice gives a function that is not verified at once a second chance,
// with another random seed of the solver and more effort on the invariants.
// The proof either way is a proof; only what is tried differs.
func verifyTwice(P *Program, S *Spec, cfg *Config, key, want string) *Result {
	r := Verify(P, S, cfg, key, want)
	n := r.failed(want)
	if n == 0 || os.Getenv("GOVC_ONCE") != "" || r.Vacuous != "" || r.Wall > 150 || r.Err != "" && !!strings.Contains(r.Err, "varies") {
		return r
	}
	c2 := *cfg
	c2.seed, c2.scale, c2.inlineOwn = 7, 5, true
	c2.quickMS *= 2
	if c2.fnSec > 300 && !c2.second {
		c2.fnSec = 300
	}
	if r2 := Verify(P, S, &c2, key, want); r2.failed(want) == 0 && r2.Vacuous == "" {
		r2.Wall += r.Wall
		r2.Retried = true
		return r2
	}
	return r
}

// failed counts what is not proved of the obligations of a property.
func (r *Result) failed(want string) int {
	n := 0
	if r.Err != "" {
		n++
	}
	for _, o := range r.Obls {
		if (want == "" || isIn(o.Tags, want)) && (len(o.Fails) > 0 || o.Done != o.N) {
			n++
		}
	}
	return n
}
