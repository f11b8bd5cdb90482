package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// govc check PROP: decides one property on the current source, writes the
// evidence file and prints the verdict. Exit 0: every obligation of the
// property is discharged. Exit 1: a VIOLATION line names the replay file.
func checkMain() int {
	t0 := time.Now()
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check PROPERTY")
		return 2
	}
	prop := os.Args[1]
	repo, root := envOr("VERIF_REPO", "/repo"), envOr("VERIF_ROOT", "")
	if root == "" {
		exe, _ := os.Executable()
		root = filepath.Dir(filepath.Dir(exe))
	}
	tier := envOr("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	P, err := Load(repo, readLayout(filepath.Join(root, "contracts")))
	if err != nil {
		fmt.Println("cannot load the code:", err)
		return 2
	}
	S, err := ParseSpecDir(filepath.Join(root, "contracts"))
	if err != nil {
		fmt.Println("cannot read the contracts:", err)
		return 2
	}
	cfg := &Config{quickMS: 3000, slowSec: 10, maxSteps: 200000, fnSec: 420}
	if tier == "thorough" {
		cfg = &Config{quickMS: 10000, slowSec: 60, maxSteps: 1000000, fnSec: 3600, second: true}
	}
	var fns []string
	for _, k := range sortedKeys(S.Funcs) {
		if c := S.Funcs[k]; !c.Extern && isIn(c.Props, prop) {
			fns = append(fns, k)
		}
	}
	rs := verifyAll(P, S, cfg, fns, prop, 8)
	if r := proveLemmas(P, S, cfg, prop); r != nil {
		rs = append(rs, r)
	}
	known := readKnown(filepath.Join(root, "known-findings.txt"))

	// obligations of the property
	nObl, nDone, nInst, nInstDone, second, secondTried := 0, 0, 0, 0, 0, 0
	by := map[string]int{}
	var bad []string      // descriptions of what failed
	var badNames []string // names of failed obligations
	var log bytes.Buffer
	assumed, inlined, called := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var fnInfo []map[string]interface{}
	var samples []interface{}
	knownHit := map[string]string{}
	fail := func(name, desc, detail string) {
		if why, ok := known[prop+" "+name]; ok {
			knownHit[name] = why
			return
		}
		badNames = append(badNames, name)
		bad = append(bad, desc)
		fmt.Fprintf(&log, "FAILED OBLIGATION %s\n  %s\n%s\n", name, desc, detail)
	}
	for _, r := range rs {
		n, d := 0, 0
		for _, o := range r.Obls {
			if !isIn(o.Tags, prop) {
				continue
			}
			n++
			nInst += o.N
			nInstDone += o.Done
			for s, k := range o.By {
				by[s] += k
			}
			second += o.Second
			secondTried += o.SecondTried
			if len(o.Fails) == 0 && o.Done == o.N {
				d++
				if len(samples) < 8 && strings.HasPrefix(o.Label, "ensures") {
					samples = append(samples, map[string]interface{}{"function": o.Fn, "obligation": o.Label, "states": o.Desc, "instances": o.N, "by": o.By})
				}
			} else {
				var det strings.Builder
				for _, f := range o.Fails {
					fmt.Fprintf(&det, "  verifier answer: %s\n  path (branches taken): %s\n", f.Result, strings.Join(f.Trace, " "))
				}
				for i, f := range o.Fails {
					if i < 1 && f.Script != "" {
						fmt.Fprintf(&det, "  --- query (unsat expected) ---\n%s\n", f.Script)
					}
				}
				fail(r.Fn+"/"+o.Label, o.Desc, det.String())
			}
		}
		nObl += n
		nDone += d
		if r.Err != "" {
			fail(r.Fn+"/verifier", "the function cannot be verified: "+r.Err, "")
		}
		if r.Vacuous != "" {
			fail(r.Fn+"/vacuity", "the contract is vacuous: "+r.Vacuous, "")
		}
		if n == 0 && r.Err == "" {
			fail(r.Fn+"/empty", "no obligation of the property was generated", "")
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, a := range r.Inlined {
			inlined[a] = true
		}
		for _, a := range r.Called {
			called[a] = true
		}
		fnInfo = append(fnInfo, map[string]interface{}{"function": r.Fn, "obligations": n, "discharged": d, "paths": r.Paths, "normal_returns": r.Normal, "panicking_paths": r.Panics, "loops": r.Loops, "loop_invariants_proved": r.Invs, "seconds": round(r.Wall)})
	}
	if len(fns) == 0 {
		fail("contracts/none", "no function is under contract for this property", "")
	}
	code := 0
	replay := ""
	input := ""
	if len(bad) > 0 {
		code = 1
		input = runReplay(root, repo, prop, seed, 240)
		dir := filepath.Join(root, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		replay = filepath.Join(dir, prop+".txt")
		var out bytes.Buffer
		fmt.Fprintf(&out, "property %s\n", prop)
		for i := range bad {
			fmt.Fprintf(&out, "obligation %s: %s\n", badNames[i], bad[i])
		}
		if input != "" {
			fmt.Fprintf(&out, "\nFAILING INPUT, found by running the code (VERIF_SEED=%d):\n%s\n", seed, input)
			fmt.Fprintf(&out, "To run it again: VERIF_SEED=%d %s/replay/run.sh %s\n", seed, root, prop)
		} else {
			fmt.Fprintf(&out, "\nno failing input found; the obligations above were discharged on the unchanged tree\n")
		}
		out.WriteString("\n")
		out.Write(log.Bytes())
		os.WriteFile(replay, out.Bytes(), 0o644)
	}
	conf := ""
	if tier == "thorough" && code == 0 {
		// conformance of the contracts with real executions (bounded, never counted as proved)
		if in := runReplay(root, repo, prop, seed, 600); in != "" {
			conf = in
			code = 1
			dir := filepath.Join(root, "evidence", "replay")
			os.MkdirAll(dir, 0o755)
			replay = filepath.Join(dir, prop+".txt")
			os.WriteFile(replay, []byte("property "+prop+"\nno obligation failed, but the code fails on a real execution\n\n"+in+"\n"), 0o644)
			input = in
			badNames = append(badNames, "replay")
		}
	}
	_ = conf
	trusted := []string{
		"govc (go/ssa symbolic execution, memory and monitor model): /verif/govc",
		"z3 4.15 (z3-new) as the deciding solver; z3 4.8.12 and cvc5 1.1.2 as further back ends",
		"golang.org/x/tools/go/ssa and go/types: translation of the source to SSA",
	}
	var externs []string
	for _, k := range sortedKeys(called) {
		if c := S.Funcs[k]; c != nil && c.Extern && !c.Inline {
			externs = append(externs, k)
		}
	}
	for _, k := range externs {
		trusted = append(trusted, "assumed contract: "+k)
	}
	assumptions := append(baseAssumptions(), sortedKeys(assumed)...)
	if len(P.renamed) > 0 {
		assumptions = append(assumptions, "verified after alpha-renaming: "+strings.Join(P.renamed, ", "))
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": nObl, "discharged": nDone,
			"instances": nInst, "instances_discharged": nInstDone,
			"discharged_by":                         by,
			"functions_under_contract":              fnInfo,
			"functions_inlined_from_source":         sortedKeys(inlined),
			"callees_used_through_assumed_contract": externs,
			"solver_queries":                        atomic.LoadInt64(&nQueries),
			"solver_seconds":                        round(float64(atomic.LoadInt64(&solverNano)) / 1e9),
			"second_solver_tried":                   secondTried,
			"second_solver_confirmed":               second,
			"checker_cmd":                           "/verif/check.sh " + prop + " (govc check " + prop + ")",
			"trusted_base":                          trusted,
			"samples":                               samples,
			"failed_obligations":                    badNames,
			"known_findings":                        sortedKeys(knownHit),
		},
		"assumptions": assumptions,
		"wall_s":      round(time.Since(t0).Seconds()),
		"violations":  len(badNames),
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, k, knownHit[k])
	}
	fmt.Printf("%s: %d functions, %d obligations, %d discharged (%d instances, %d queries), %.1fs\n", prop, len(fns), nObl, nDone, nInst, atomic.LoadInt64(&nQueries), time.Since(t0).Seconds())
	if code != 0 {
		for i, b := range bad {
			if i < 12 {
				fmt.Printf("  failed: %s: %s\n", badNames[i], b)
			}
		}
		if input != "" {
			fmt.Println("  failing input:")
			for i, l := range strings.Split(strings.TrimSpace(input), "\n") {
				if i < 20 {
					fmt.Println("   ", l)
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
	}
	return code
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func baseAssumptions() []string {
	return []string{
		"partial correctness: termination is not proved",
		"allocation succeeds; slices and maps are shorter than 2^48 (address space)",
		"sequentially consistent locking: data guarded by a mutex is only read and written under it (proved), so interleavings reduce to critical sections",
	}
}

// readKnown parses "known: property=<id> obligation=<name> <what fails>".
var knownRE = regexp.MustCompile(`^known: property=(\S+) obligation=(.+?) :: (.*)$`)

func readKnown(f string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(f)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRE.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out[m[1]+" "+m[2]] = m[3]
		}
	}
	return out
}

// runReplay searches for a concrete failing input on the real code: the
// property's test is compiled into the package through an overlay.
func runReplay(root, repo, prop string, seed, secs int) string {
	base := filepath.Join(root, "replay")
	pkgs, _ := filepath.Glob(filepath.Join(base, "*", "*_test.go"))
	byPkg := map[string][]string{}
	has := map[string]bool{}
	for _, f := range pkgs {
		rel, _ := filepath.Rel(base, filepath.Dir(f))
		dir := strings.ReplaceAll(rel, "__", "/")
		byPkg[dir] = append(byPkg[dir], f)
		b, _ := os.ReadFile(f)
		if bytes.Contains(b, []byte("func TestVerif"+prop+"(")) {
			has[dir] = true
		}
	}
	tmp, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(tmp)
	var dirs []string
	for d := range has {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		rep := map[string]string{}
		for _, f := range byPkg[d] {
			rep[filepath.Join(repo, d, filepath.Base(f))] = f
		}
		ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		ovf := filepath.Join(tmp, "overlay.json")
		os.WriteFile(ovf, ov, 0o644)
		out := filepath.Join(tmp, "input.txt")
		args := []string{"test", "-count=1", "-vet=off", "-overlay", ovf, "-run", "^TestVerif" + prop + "$", "-timeout", fmt.Sprintf("%ds", secs)}
		if prop == "C12" {
			args = append(args, "-race")
		}
		args = append(args, "./"+d)
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+60)*time.Second)
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = repo
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOMEMLIMIT=8GiB", "VERIF_INPUT="+out, fmt.Sprintf("VERIF_SEED=%d", seed))
		res, err := cmd.CombinedOutput()
		cancel()
		if b, e := os.ReadFile(out); e == nil && len(b) > 0 {
			return string(b)
		}
		if err != nil && prop == "C12" && bytes.Contains(res, []byte("WARNING: DATA RACE")) {
			return "concurrent use under the race detector:\n" + head(string(res), 60)
		}
		if err != nil && bytes.Contains(res, []byte("panic: ")) && bytes.Contains(res, []byte("verif-input: ")) {
			return head(string(res), 60)
		}
		if err != nil && os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println(string(res))
		}
	}
	return ""
}

func head(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}
