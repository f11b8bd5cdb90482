package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// govc selftest checks the verifier itself. /verif/selftest holds small
// functions with contracts whose clauses are labelled: ok… is true and must be
// discharged, bad… is false and must not be; inc-… is true but beyond reach.
// expected.txt lists the other obligations that must fail (a missing unlock, a
// nil dereference, …); every one it does not list must be discharged.
func selftestMain(root string) int {
	dir := filepath.Join(root, "selftest")
	P, err := Load(filepath.Join(dir, "src"), nil)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	S, err := ParseSpecDir(filepath.Join(dir, "contracts"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	want := map[string]bool{}
	b, _ := os.ReadFile(filepath.Join(dir, "expected.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.TrimSpace(l); l != "" && l[0] != '#' {
			want[l] = true
		}
	}
	cfg := &Config{quickMS: 3000, slowSec: 3, maxSteps: 200000, fnSec: 120}
	var keys []string
	for _, k := range sortedKeys(S.Funcs) {
		if !S.Funcs[k].Extern {
			keys = append(keys, k)
		}
	}
	wrong := 0
	say := func(f string, a ...interface{}) {
		wrong++
		fmt.Printf("WRONG "+f+"\n", a...)
	}
	held, refuted := 0, 0
	rs := verifyAll(P, S, cfg, keys, "", 8)
	if r := proveLemmas(P, S, cfg, ""); r != nil {
		rs = append(rs, r)
	}
	for _, r := range rs {
		if r.Err != "" || r.Vacuous != "" && len(r.Obls) == 0 {
			say("%s: %s%s", r.Fn, r.Err, r.Vacuous)
		}
		for _, o := range r.Obls {
			ok := len(o.Fails) == 0 && o.Done == o.N
			kind := ""
			if len(o.Tags) > 0 {
				kind = o.Tags[0]
			}
			k := r.Fn + " " + o.Label
			switch {
			case want[k]:
				delete(want, k)
				if refuted++; ok {
					say("%s: DISCHARGED ALTHOUGH IT FAILS: %s", r.Fn, o.Label)
				}
			case strings.HasPrefix(kind, "ok"):
				if held++; !ok {
					say("%s: true but not proved: %s", r.Fn, o.Desc)
				}
			case strings.HasPrefix(kind, "bad"):
				if refuted++; ok {
					say("%s: PROVED ALTHOUGH FALSE: %s", r.Fn, o.Desc)
				}
			case strings.HasPrefix(kind, "inc"):
			default:
				if held++; !ok {
					say("%s: not discharged: %s: %s", r.Fn, o.Label, o.Desc)
				}
			}
		}
	}
	for _, k := range sortedKeys(want) {
		say("%s: no such obligation", k)
	}
	if x := escapeKeeps(); x != "" {
		say("escaping: %s", x)
	}
	fmt.Printf("selftest: %d functions, %d obligations held, %d refuted as they should be, %d wrong\n", len(rs), held, refuted, wrong)
	if wrong > 0 {
		return 1
	}
	return 0
}
