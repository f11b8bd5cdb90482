package main

import (
	"bufio"
	"context"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
)

// Fact is a path fact; facts form a linked list from newest to oldest.
type Fact struct {
	t      *Term
	parent *Fact
	depth  int
}

// counters of the whole run
var (
	nQueries   int64
	nFallback  int64
	solverNano int64
)

const (
	rlimitPerMS = 2500
	timeSlack   = 6
)

// Session is an incremental z3 process whose assertion stack follows a path.
type Session struct {
	trace   *os.File
	seed    int
	c       *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	stack   []*Fact // asserted facts, one push level each chunk
	levels  []int   // number of facts in stack at each push level
	sentD   int     // declarations sent
	named   map[*Term]bool
	dead    bool
	lastTO  int
	restart int
	litDone int
	axDone  int
	cache   map[cacheKey]string
	pool    []*Session // helpers for CheckMany
}

type cacheKey struct {
	f *Fact
	g *Term
}

const preamble = `(set-option :global-declarations true)
(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.qi.eager_threshold 30)
(set-option :model_evaluator.completion true)
`

const prelude = `(declare-sort Str 0)
(declare-sort Flt 0)
(declare-datatypes ((Iface 0)) (((mkI (ityp Int) (ival Int)))))
(declare-fun slen (Str) Int)
(declare-fun sbyte (Str Int) Int)
(declare-fun strcat (Str Str) Str)
(assert (forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s)))))
(assert (forall ((a Str) (b Str)) (! (= (slen (strcat a b)) (+ (slen a) (slen b))) :pattern ((strcat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (= (sbyte (strcat a b) i) (ite (< i (slen a)) (sbyte a i) (sbyte b (- i (slen a))))) :pattern ((sbyte (strcat a b) i)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sbyte s i)) (<= (sbyte s i) 255)) :pattern ((sbyte s i)))))
`

// NewSession starts a solver.
func NewSession(c *Ctx, seed int) *Session {
	s := &Session{c: c, seed: seed, cache: map[cacheKey]string{}}
	for _, n := range []string{"slen", "sbyte", "strcat"} {
		c.known[n] = true
	}
	s.start()
	return s
}

func (s *Session) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack, s.levels = nil, nil
	s.sentD, s.litDone, s.axDone = 0, 0, 0
	s.named = map[*Term]bool{}
	s.dead = false
	s.lastTO = -1
	s.send(preamble)
	if s.seed != 0 {
		s.send(fmt.Sprintf("(set-option :smt.random_seed %d)\n", s.seed))
	}
	s.send(prelude)
}

func (s *Session) Close() {
	for _, x := range s.pool {
		x.Close()
	}
	s.pool = nil
	s.stop()
}

func (s *Session) stop() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Session) send(x string) {
	if *fTrace != "" {
		if s.trace == nil {
			s.trace, _ = os.Create(fmt.Sprintf("%s.%d", *fTrace, atomic.AddInt64(&nTraces, 1)))
		}
		s.trace.WriteString(x)
	}
	if _, err := s.in.WriteString(x); err != nil {
		s.dead = true
	}
}

var nTraces int64

func litAxiom(c *Ctx, i int) string {
	t := c.litsN[i]
	v, _ := c.LitVal(t)
	var sb strings.Builder
	fmt.Fprintf(&sb, "(assert (= (slen %s) %d))\n", t.Op, len(v))
	for k := 0; k < len(v) && k < 64; k++ {
		fmt.Fprintf(&sb, "(assert (= (sbyte %s %d) %d))\n", t.Op, k, v[k])
	}
	for j := 0; j < i; j++ {
		u := c.litsN[j]
		w, _ := c.LitVal(u)
		if w != v {
			fmt.Fprintf(&sb, "(assert (not (= %s %s)))\n", t.Op, u.Op)
		}
	}
	return sb.String()
}

// pushDecls sends outstanding declarations (global) and axioms.
func (s *Session) pushDecls() {
	for s.sentD < len(s.c.decls) {
		s.send(s.c.decls[s.sentD] + "\n")
		s.sentD++
	}
	if s.litDone < len(s.c.litsN) || s.axDone < len(s.c.axioms) {
		// axioms must live at the base level
		s.popAll()
		for s.axDone < len(s.c.axioms) {
			a := s.c.axioms[s.axDone]
			s.axDone++
			s.send("(assert " + s.term(a) + ")\n")
		}
		for s.litDone < len(s.c.litsN) {
			s.send(litAxiom(s.c, s.litDone))
			s.litDone++
		}
	}
}

func (s *Session) popAll() {
	if len(s.levels) > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", len(s.levels)))
		s.levels = nil
		s.stack = nil
	}
}

// term prints t using global definitions for shared parts.
func (s *Session) term(t *Term) string {
	s.define(t)
	var sb strings.Builder
	printTerm(&sb, t, func(x *Term) string {
		if x != t && s.named[x] {
			return fmt.Sprintf("t!%d", x.id)
		}
		if x == t && s.named[x] {
			return fmt.Sprintf("t!%d", x.id)
		}
		return ""
	})
	return sb.String()
}

func (s *Session) define(t *Term) {
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || s.named[x] || len(x.Args) == 0 {
			return
		}
		seen[x] = true
		for _, a := range x.Args {
			walk(a)
		}
		for _, p := range x.Pats {
			for _, a := range p {
				walk(a)
			}
		}
		if !x.bound && x.size >= 6 && x.Op != "forall" && x.Op != "exists" {
			var sb strings.Builder
			printTerm(&sb, x, func(y *Term) string {
				if y != x && s.named[y] {
					return fmt.Sprintf("t!%d", y.id)
				}
				return ""
			})
			s.send(fmt.Sprintf("(define-fun t!%d () %s %s)\n", x.id, x.Srt, sb.String()))
			s.named[x] = true
		}
	}
	walk(t)
}

func (s *Session) sync(f *Fact) {
	s.pushDecls()
	n := 0
	if f != nil {
		n = f.depth
	}
	want := make([]*Fact, n)
	for x := f; x != nil; x = x.parent {
		want[x.depth-1] = x
	}
	common := 0
	for common < len(s.stack) && common < n && s.stack[common] == want[common] {
		common++
	}
	// pop whole levels until stack length <= common
	pops := 0
	for len(s.stack) > common {
		lv := s.levels[len(s.levels)-1]
		s.levels = s.levels[:len(s.levels)-1]
		s.stack = s.stack[:lv]
		pops++
	}
	if pops > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", pops))
	}
	if len(s.stack) < n {
		s.levels = append(s.levels, len(s.stack))
		s.send("(push 1)\n")
		for _, x := range want[len(s.stack):] {
			s.send("(assert " + s.term(x.t) + ")\n")
			s.stack = append(s.stack, x)
		}
	}
}

// Check reports "unsat" if goal follows from the facts; otherwise "sat" or
// "unknown".
func (s *Session) Check(f *Fact, goal *Term, ms int) string {
	if goal == s.c.T {
		return "unsat"
	}
	key := cacheKey{f, goal}
	if r, ok := s.cache[key]; ok && (r == "unsat" || ms <= 600) {
		return r
	}
	t0 := time.Now()
	atomic.AddInt64(&nQueries, 1)
	r := s.check(f, s.c.Not(goal), ms)
	atomic.AddInt64(&solverNano, int64(time.Since(t0)))
	if debugLap && time.Since(t0) > 100*time.Millisecond {
		var pcs [6]uintptr
		n := runtime.Callers(2, pcs[:])
		fr := runtime.CallersFrames(pcs[:n])
		w := ""
		for {
			f, more := fr.Next()
			w += fmt.Sprintf(" %s:%d", f.Function[strings.LastIndex(f.Function, ".")+1:], f.Line)
			if !more {
				break
			}
		}
		fmt.Fprintf(os.Stderr, "slow %.2fs %s ms=%d%s\n", time.Since(t0).Seconds(), r, ms, w)
	}
	s.cache[key] = r
	return r
}

// query is one question of CheckMany.
type query struct {
	f    *Fact
	goal *Term
	ms   int
	ng   *Term
	res  string
}

const poolSize = 6

// CheckMany answers several questions; with many of them it uses further
// solver processes.  The assignment to processes depends on the questions
// only, so that answers are reproducible.
func (s *Session) CheckMany(qs []*query) {
	var todo []*query
	for _, q := range qs {
		if q.goal == s.c.T {
			q.res = "unsat"
			continue
		}
		if r, ok := s.cache[cacheKey{q.f, q.goal}]; ok && (r == "unsat" || q.ms <= 600) {
			q.res = r
			continue
		}
		q.ng = s.c.Not(q.goal)
		todo = append(todo, q)
	}
	t0 := time.Now()
	atomic.AddInt64(&nQueries, int64(len(todo)))
	if len(todo) < 8 {
		for _, q := range todo {
			q.res = s.check(q.f, q.ng, q.ms)
		}
	} else {
		for len(s.pool) < poolSize-1 {
			s.pool = append(s.pool, NewSession(s.c, s.seed))
		}
		done := make(chan bool)
		for w := 0; w < poolSize; w++ {
			x := s
			if w > 0 {
				x = s.pool[w-1]
			}
			w := w
			go func() {
				for i := w; i < len(todo); i += poolSize {
					t1 := time.Now()
					todo[i].res = x.check(todo[i].f, todo[i].ng, todo[i].ms)
					if debugLap && time.Since(t1) > 100*time.Millisecond {
						fmt.Fprintf(os.Stderr, "many %.2f %s ms=%d %.200s\n", time.Since(t1).Seconds(), todo[i].res, todo[i].ms, fmt.Sprint(todo[i].goal))
					}
				}
				done <- true
			}()
		}
		for w := 0; w < poolSize; w++ {
			<-done
		}
	}
	atomic.AddInt64(&solverNano, int64(time.Since(t0)))
	for _, q := range todo {
		s.cache[cacheKey{q.f, q.goal}] = q.res
	}
}

func (s *Session) check(f *Fact, neg *Term, ms int) string {
	for try := 0; try < 2; try++ {
		if s.dead {
			s.stop()
			s.restart++
			s.start()
		}
		s.pushDecls()
		s.sync(f)
		ng := s.term(neg)
		s.pushDecls()
		s.sync(f)
		if ms != s.lastTO {
			// the resource limit makes the answer independent of the speed of
			// the machine; the time limit is a fallback
			s.send(fmt.Sprintf("(set-option :rlimit %d)\n(set-option :timeout %d)\n", ms*rlimitPerMS, ms*timeSlack))
			s.lastTO = ms
		}
		s.send("(push 1)\n(assert " + ng + ")\n(check-sat)\n(pop 1)\n")
		if err := s.in.Flush(); err != nil {
			s.dead = true
			continue
		}
		res, ok := s.readAnswer(time.Duration(ms*timeSlack)*time.Millisecond*2 + 5*time.Second)
		if !ok {
			s.dead = true
			continue
		}
		return res
	}
	return "unknown"
}

func (s *Session) readAnswer(to time.Duration) (string, bool) {
	type ans struct {
		s  string
		ok bool
	}
	ch := make(chan ans, 1)
	go func() {
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				ch <- ans{"", false}
				return
			}
			line = strings.TrimSpace(line)
			switch line {
			case "sat", "unsat", "unknown":
				ch <- ans{line, true}
				return
			case "":
			default:
				if strings.Contains(line, "error") {
					if strings.Contains(line, "canceled") || strings.Contains(line, "timeout") {
						continue
					}
					fmt.Fprintln(os.Stderr, "solver:", line)
					atomic.AddInt64(&nSolverErr, 1)
				}
			}
		}
	}()
	select {
	case a := <-ch:
		return a.s, a.ok
	case <-time.After(to):
		s.cmd.Process.Kill()
		return "", false
	}
}

var nSolverErr int64

// Script renders a stand-alone SMT-LIB script for f |- goal.
func Script(c *Ctx, f *Fact, goal *Term, generic bool) string {
	var sb strings.Builder
	if !generic {
		sb.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	}
	sb.WriteString("(set-logic ALL)\n")
	sb.WriteString(prelude)
	for _, d := range c.decls {
		sb.WriteString(d + "\n")
	}
	for i := range c.litsN {
		sb.WriteString(litAxiom(c, i))
	}
	named := map[*Term]bool{}
	pr := func(t *Term) string {
		seen := map[*Term]bool{}
		var walk func(x *Term)
		name := func(y *Term) string {
			if named[y] {
				return fmt.Sprintf("t!%d", y.id)
			}
			return ""
		}
		walk = func(x *Term) {
			if seen[x] || named[x] || len(x.Args) == 0 {
				return
			}
			seen[x] = true
			for _, a := range x.Args {
				walk(a)
			}
			for _, p := range x.Pats {
				for _, a := range p {
					walk(a)
				}
			}
			if !x.bound && x.size >= 6 && x.Op != "forall" && x.Op != "exists" {
				var b strings.Builder
				printTerm(&b, x, name)
				fmt.Fprintf(&sb, "(define-fun t!%d () %s %s)\n", x.id, x.Srt, b.String())
				named[x] = true
			}
		}
		walk(t)
		var b strings.Builder
		printTerm(&b, t, name)
		return b.String()
	}
	for _, a := range c.axioms {
		x := pr(a)
		sb.WriteString("(assert " + x + ")\n")
	}
	var fs []*Fact
	for x := f; x != nil; x = x.parent {
		fs = append(fs, x)
	}
	for i := len(fs) - 1; i >= 0; i-- {
		x := pr(fs[i].t)
		sb.WriteString("(assert " + x + ")\n")
	}
	x := pr(c.Not(goal))
	sb.WriteString("(assert " + x + ")\n(check-sat)\n")
	return sb.String()
}

// RunScript runs one solver on a script file.
func RunScript(ctx context.Context, solver string, file string, secs int) string {
	var cmd *exec.Cmd
	switch solver {
	case "z3-new", "z3":
		cmd = exec.CommandContext(ctx, solver, fmt.Sprintf("-T:%d", secs), "-smt2", file)
	case "z3-seed":
		cmd = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", secs), "smt.random_seed=7", "smt.arith.solver=2", "-smt2", file)
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), "-q", file)
	}
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
	}
	return "unknown"
}

// Portfolio runs several solvers on f |- goal and returns the first definite
// answer together with the solver that gave it.
func Portfolio(c *Ctx, f *Fact, goal *Term, secs int) (string, string) {
	atomic.AddInt64(&nFallback, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&solverNano, int64(time.Since(t0))) }()
	tmp, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		return "unknown", ""
	}
	defer os.Remove(tmp.Name())
	tmp.WriteString(Script(c, f, goal, false))
	tmp.Close()
	tmp2, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		return "unknown", ""
	}
	defer os.Remove(tmp2.Name())
	tmp2.WriteString(Script(c, f, goal, true))
	tmp2.Close()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+2)*time.Second)
	defer cancel()
	type res struct{ r, s string }
	solvers := []string{"z3-new", "z3-seed", "z3", "cvc5"}
	ch := make(chan res, len(solvers))
	for _, s := range solvers {
		s := s
		go func() {
			f := tmp.Name()
			if s == "cvc5" {
				f = tmp2.Name()
			}
			ch <- res{RunScript(ctx, s, f, secs), s}
		}()
	}
	out := res{"unknown", ""}
	for range solvers {
		r := <-ch
		if r.r == "unsat" {
			return r.r, r.s
		}
		if r.r == "sat" && out.r != "sat" {
			out = r
		}
	}
	return out.r, out.s
}

// Second asks the solvers that did not decide the obligation.
func Second(c *Ctx, f *Fact, goal *Term, secs int) bool {
	tmp, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		return false
	}
	defer os.Remove(tmp.Name())
	tmp.WriteString(Script(c, f, goal, true))
	tmp.Close()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+2)*time.Second)
	defer cancel()
	ch := make(chan string, 2)
	for _, s := range []string{"cvc5", "z3"} {
		s := s
		go func() { ch <- RunScript(ctx, s, tmp.Name(), secs) }()
	}
	for i := 0; i < 2; i++ {
		if <-ch == "unsat" {
			return true
		}
	}
	return false
}
