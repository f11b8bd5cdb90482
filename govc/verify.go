package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one named obligation of one function: all instances (paths, call
// sites) under the same label.
type Obl struct {
	Fn      string
	Label   string
	Tags    []string
	Desc    string
	N       int
	Done    int
	By      map[string]int
	Fails   []Failure
	Skipped int

	SecondTried, Second int // instances handed to, confirmed by a second solver
}

// Failure is an instance that was not discharged.
type Failure struct {
	Desc   string
	Trace  []string
	Result string
	Script string
}

func (e *Eng) logf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "[%s] %s\n", e.fnKey, fmt.Sprintf(f, a...))
}

func (e *Eng) defTags() []string { return e.con.Props }

func (e *Eng) tagsOr(t []string) []string {
	if len(t) > 0 {
		return t
	}
	return e.defTags()
}

func (e *Eng) wanted(tags []string) bool {
	if e.want == "" {
		return true
	}
	return isIn(tags, e.want)
}

// prove discharges one instance of an obligation.
func (e *Eng) prove(st *State, goal *Term, label string, tags []string, desc string) {
	if e.mute > 0 {
		e.add(st, goal)
		return
	}
	if e.deadline > 0 && time.Now().UnixNano() > e.deadline {
		unsup("time budget exhausted")
	}
	want := e.wanted(tags)
	if e.deferQ != nil {
		d := &pending{label: label, tags: tags, desc: desc, want: want, facts: st.facts, goal: goal}
		d.triv = goal == e.c.T || st.fset[goal]
		e.deferQ.items = append(e.deferQ.items, d)
		e.add(st, goal)
		return
	}
	o := e.obl(label, tags, desc)
	o.N++
	done := func(by string) {
		o.Done++
		o.By[by]++
		e.add(st, goal)
	}
	if goal == e.c.T || st.fset[goal] {
		done("simplifier")
		return
	}
	ms := e.cfg.quickMS
	if !want {
		ms = 500
	}
	if e.s.Check(st.facts, goal, ms) == "unsat" {
		if e.cfg.second && want && o.SecondTried == 0 {
			o.SecondTried++
			if Second(e.c, st.facts, goal, 10) {
				o.Second++
			}
		}
		done("z3")
		return
	}
	if !want {
		o.Skipped++
		return
	}
	res := "not proved"
	if len(o.Fails) == 0 && e.nPort < 6 {
		e.nPort++
		r, by := Portfolio(e.c, st.facts, goal, e.cfg.slowSec)
		if r == "unsat" {
			e.nPort--
			done(by)
			return
		}
		res = r
	}
	f := Failure{Desc: desc, Trace: append([]string(nil), st.trace...), Result: res}
	if len(o.Fails) < 3 {
		f.Script = Script(e.c, st.facts, goal, true)
	}
	if e.cfg.verbose {
		e.logf("FAILED %s %v: %s\n   trace %s", label, tags, desc, strings.Join(st.trace, " "))
		if e.cfg.dumpDir != "" {
			os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", e.cfg.dumpDir, strings.Map(okFile, e.fnKey+"-"+label), len(o.Fails)), []byte(f.Script), 0o644)
		}
	}
	o.Fails = append(o.Fails, f)
}

func (e *Eng) obl(label string, tags []string, desc string) *Obl {
	key := label + "|" + strings.Join(tags, " ")
	o := e.obls[key]
	if o == nil {
		o = &Obl{Fn: e.fnKey, Label: label, Tags: tags, Desc: desc, By: map[string]int{}}
		e.obls[key] = o
		e.oblOrder = append(e.oblOrder, key)
	}
	return o
}

// pending is an obligation of a path's end that waits to be discharged
// together with those of the other paths.  Within one path an obligation may
// use the earlier ones; when one of them fails the path is done again, one
// obligation at a time, without that.
type pending struct {
	label string
	tags  []string
	desc  string
	want  bool
	facts *Fact
	goal  *Term
	triv  bool
	q     *query
}

type deferQueue struct {
	o     Outcome
	items []*pending
	res   Result
}

// exits checks the ends of all paths.
func (e *Eng) exits(outs []Outcome, res *Result) {
	var qs []*query
	var live []*query
	for _, o := range outs {
		q := &query{f: o.st.facts, goal: e.c.F, ms: e.feasMS()}
		live = append(live, q)
	}
	e.s.CheckMany(live)
	var all []*deferQueue
	for i, o := range outs {
		if live[i].res == "unsat" {
			continue
		}
		if e.deadline > 0 && time.Now().UnixNano() > e.deadline {
			unsup("time budget exhausted")
		}
		d := &deferQueue{o: o}
		d.o.st = o.st.clone()
		e.deferQ = d
		e.exit(o, &d.res)
		e.deferQ = nil
		for _, x := range d.items {
			if !x.triv {
				ms := e.cfg.quickMS
				if !x.want {
					ms = 500
				}
				x.q = &query{f: x.facts, goal: x.goal, ms: ms}
				qs = append(qs, x.q)
			}
		}
		all = append(all, d)
	}
	e.s.CheckMany(qs)
	for _, d := range all {
		ok := true
		for _, x := range d.items {
			if x.q != nil && x.q.res != "unsat" {
				ok = false
			}
		}
		if !ok {
			e.exit(d.o, res)
			continue
		}
		res.Normal += d.res.Normal
		res.Panics += d.res.Panics
		for _, x := range d.items {
			o := e.obl(x.label, x.tags, x.desc)
			o.N++
			o.Done++
			if x.q == nil {
				o.By["simplifier"]++
				continue
			}
			o.By["z3"]++
			if e.cfg.second && x.want && o.SecondTried == 0 {
				o.SecondTried++
				if Second(e.c, x.facts, x.goal, 10) {
					o.Second++
				}
			}
		}
	}
}

func okFile(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '.' {
		return r
	}
	return '_'
}

// Result is the outcome of verifying one function.
type Result struct {
	Fn      string
	Obls    []*Obl
	Err     string // unsupported construct or broken specification
	Normal  int    // reachable normal returns
	Panics  int
	Paths   int
	Assumed []string
	Inlined []string
	Called  []string
	Loops   int
	Invs    int
	Wall    float64
	Vacuous string
	Audit   []string
	Retried bool // proved at the second attempt
}

func newEng(P *Program, S *Spec, cfg *Config, key string) *Eng {
	c := NewCtx()
	return &Eng{P: P, S: S, c: c, s: NewSession(c, cfg.seed), tags: map[string]int{}, tagT: map[int]types.Type{}, ifaces: map[string]types.Type{}, implDone: map[string]bool{},
		cfg: cfg, fnKey: key, obls: map[string]*Obl{}, calls: map[string]int{}, assumed: map[string]bool{}, inlined: map[string]bool{},
		cardMemo: map[*Term]*Term{}, cardBody: map[*Term]*Term{}, cardVar: map[*Term]*Term{}, cardLinked: map[string]bool{}, funcVar: map[*Term]string{},
		keyType: map[string]types.Type{}, quantMemo: map[string]*Term{}, inline: map[string]bool{}, params: map[*Term]bool{}}
}

// Verify checks one function against its contract.
func Verify(P *Program, S *Spec, cfg *Config, key, want string) (res *Result) {
	t0 := time.Now()
	e := newEng(P, S, cfg, key)
	e.want = want
	defer e.s.Close()
	res = &Result{Fn: key}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsup); ok {
				res.Err = u.msg
			} else if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			} else {
				res.Err = fmt.Sprintf("internal error: %v", r)
				if cfg.verbose {
					debug.PrintStack()
				}
			}
		}
		for _, k := range e.oblOrder {
			res.Obls = append(res.Obls, e.obls[k])
		}
		res.Assumed, res.Inlined = keys(e.assumed), keys(e.inlined)
		for k := range e.calls {
			res.Called = append(res.Called, k)
		}
		sort.Strings(res.Called)
		res.Loops, res.Invs, res.Paths = e.loopsSeen, e.loopInvs, e.paths
		res.Wall = time.Since(t0).Seconds()
	}()
	if cfg.fnSec > 0 {
		e.deadline = t0.Add(time.Duration(cfg.fnSec) * time.Second).UnixNano()
	}
	e.con = S.Funcs[key]
	e.fn = P.funcs[key]
	if e.con != nil && e.con.usesFn("hs") {
		e.htmlAxioms()
	}
	if e.fn == nil {
		res.Err = "the function does not exist in the code"
		return
	}
	if cfg.audit {
		e.aud = newAudit()
	}
	e.run(res)
	if e.aud != nil {
		res.Audit = e.aud.report(e)
	}
	return
}

func keys(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (e *Eng) run(res *Result) {
	c := e.c
	st := newState()
	con := e.con
	if len(con.Params) != len(e.fn.Params) {
		unsup("contract %s names %d parameters, the function has %d", con.Key, len(con.Params), len(e.fn.Params))
	}
	env := &Env{vars: map[string]Val{}, heap: st.heap, old: st.old, lets: con.Lets}
	if p := rootPkg(e.fn); p != nil {
		env.pkg = p.Pkg
	} else if p := e.P.proPkg[e.fn]; p != nil {
		env.pkg = p
	}
	e.entry = env
	if e.fn.Name() == "init" && e.fn.Object() == nil && e.fn.Signature.Recv() == nil && e.fn.Parent() == nil && e.fn.Pkg != nil {
		e.initPkg = e.fn.Pkg.Pkg
	}
	rv := c.Var("r", SInt)
	okb := c.Select(e.okind(st.heap), rv)
	c.Axiom(c.Forall([]*Term{rv}, c.And(c.Ne(okb, c.Int(2)), c.Le(c.Int(0), okb), c.Le(okb, c.Int(3))), []*Term{okb}))
	// nothing that exists already is owned by an object yet to be allocated
	orb := c.Select(e.oref(st.heap), rv)
	c.Axiom(c.Forall([]*Term{rv}, c.Or(c.Lt(rv, c.Int(0)), c.Le(c.Int(0), orb)), []*Term{orb}))
	// and nothing is attached to it
	for _, tn := range sortedKeys(e.S.Types) {
		if ts := e.S.Types[tn]; hasGhost(ts, "att") {
			at := c.Select(e.hget(st.heap, "F:"+tn+".$att", ArrOf(SInt, SInt)), rv)
			c.Axiom(c.Forall([]*Term{rv}, c.Le(c.Int(0), at), []*Term{at}))
		}
	}
	c.Axiom(c.Not(e.fltNeg(c.App("flt!0", SFlt))))
	for _, ax := range e.S.Axioms {
		c.Axiom(e.evalB(nil, &Env{vars: map[string]Val{}, heap: st.heap, old: st.old}, ax.E))
	}
	var args []Val
	for i, p := range e.fn.Params {
		v := e.fresh(st, "p_"+con.Params[i], p.Type())
		for k, l := range leaves(p.Type()) {
			e.params[v.X[k]] = true
			if l.kind == "ref" || l.kind == "arr" || l.kind == "func" {
				e.add(st, c.Le(c.Int(0), v.X[k]))
			}
		}
		if sl, ok := under(p.Type()).(*types.Slice); ok {
			if k := typeKey(sl.Elem()); k == "byte" || k == "uint8" {
				kind := int64(0)
				if isIn(con.Immut, con.Params[i]) {
					kind = 1
				}
				e.add(st, c.Eq(c.Select(e.okind(st.heap), v.X[0]), c.Int(kind)))
			}
		}
		if i == 0 && !con.Nilable && e.fn.Signature.Recv() != nil && e.ownsState(p.Type()) {
			e.add(st, c.Ne(v.X[0], c.Int(0)))
		}
		env.vars[con.Params[i]] = v
		args = append(args, v)
	}
	for _, k := range sortedKeys(e.S.Globals) {
		g := e.S.Globals[k]
		e.add(st, e.evalB(st, env, g.E))
	}
	for _, r := range con.Requires {
		e.add(st, e.evalB(st, env, r.E))
	}
	for _, r := range con.Assumes {
		if !mentions(r.E, con.Results) {
			e.assume("assumed in " + con.Key + ": " + r.Src)
			e.add(st, e.evalB(st, env, r.E))
		}
	}
	if e.dead(st) {
		res.Vacuous = "the precondition is unsatisfiable"
		return
	}
	outs := e.invokeBody(st, e.fn, args, nil, true)
	e.paths = len(outs)
	e.exits(outs, res)
	if res.Normal == 0 && !e.alwaysPanics() {
		res.Vacuous = "no normal return is reachable"
	}
}

// ownsState: methods of a type with state are called on an object.
func (e *Eng) ownsState(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	if !ok {
		return false
	}
	s, ok := under(p.Elem()).(*types.Struct)
	return ok && s.NumFields() > 0
}

func mentions(x *Expr, names []string) bool {
	if x.K == "id" && isIn(names, x.S) {
		return true
	}
	for _, a := range x.A {
		if mentions(a, names) {
			return true
		}
	}
	return false
}

func (e *Eng) alwaysPanics() bool {
	for _, p := range e.con.Panics {
		if p.E.K == "true" {
			return true
		}
	}
	return false
}

func (e *Eng) exit(o Outcome, res *Result) {
	c := e.c
	st := o.st
	con := e.con
	old := *e.entry
	old.heap = st.old
	old.old = st.old
	env := &Env{vars: map[string]Val{}, heap: st.heap, old: st.old, lets: con.Lets, pkg: e.entry.pkg}
	for k, v := range e.entry.vars {
		env.vars[k] = v
	}
	if o.panic {
		res.Panics++
		if o.internal {
			var ok []*Term
			for _, p := range con.Panics {
				ok = append(ok, e.evalB(st, &old, p.E))
			}
			e.prove(st, c.Or(ok...), "no-panic", e.panicTags(), "no panic: "+o.why)
		}
		env.vars["panic"] = o.pv
		if e.aud != nil {
			for _, x := range con.PanicEns {
				e.audClause(st, env, x)
			}
			if o.internal {
				for _, x := range con.AbortEns {
					e.audClause(st, env, x)
				}
			}
		}
		if o.internal {
			for _, x := range con.AbortEns {
				e.prove(st, e.evalB(st, env, x.E), x.Label2(), e.tagsOr(x.Tags), x.Src)
			}
		}
		e.publish(st, nil)
		for _, x := range con.PanicEns {
			e.prove(st, e.evalB(st, env, x.E), x.Label2(), e.tagsOr(x.Tags), x.Src)
		}
		if con.NoPanic && !o.internal {
			e.prove(st, c.F, "no-panic", e.panicTags(), "nothing it calls panics: "+o.why)
		}
		e.refines(st, o, env)
		e.locksFree(st, "panic")
		e.frame(st, &old)
		return
	}
	res.Normal++
	for _, p := range con.Panics {
		if p.Kind == "panics" {
			e.prove(st, c.Not(e.evalB(st, &old, p.E)), "panics:"+p.Label, e.tagsOr(p.Tags), "must panic when "+p.Src)
		}
	}
	for _, r := range o.res {
		if sl, ok := under2(r.T).(*types.Slice); ok {
			if k := typeKey(sl.Elem()); k == "byte" || k == "uint8" {
				e.prove(st, c.Or(c.Eq(r.X[3], c.Int(0)), c.Ne(c.Select(e.okind(st.heap), r.X[0]), c.Int(3))), "no-storage-leak", e.defTags(), "internal storage is not handed out")
			}
		}
	}
	e.publish(st, o.res)
	bindResults(env, con, o.res)
	env.heap = st.heap
	if e.aud != nil {
		for _, x := range con.Ensures {
			e.audClause(st, env, x)
		}
	}
	for _, x := range con.Ensures {
		e.prove(st, e.evalB(st, env, x.E), x.Label2(), e.tagsOr(x.Tags), x.Src)
	}
	e.refines(st, o, env)
	e.locksFree(st, "return")
	fr := old
	fr.vars = env.vars
	e.frame(st, &fr)
}

// refines checks the part of an interface method's contract that speaks about
// model variables against the fields that represent them.
func (e *Eng) refines(st *State, o Outcome, env *Env) {
	for _, k := range e.con.Refines {
		ic := e.S.Funcs[k]
		if ic == nil || len(ic.Params) != len(e.con.Params) {
			unsup("%s refines %s, which has no such contract", e.con.Key, k)
		}
		n := &Env{vars: map[string]Val{}, heap: env.heap, old: env.old, lets: ic.Lets, pkg: env.pkg}
		for i, p := range ic.Params {
			n.vars[p] = env.vars[e.con.Params[i]]
		}
		cls := ic.Ensures
		if o.panic {
			n.vars["panic"] = o.pv
			cls = ic.PanicEns
		} else {
			for i, r := range ic.Results {
				if i < len(o.res) {
					n.vars[r] = o.res[i]
				}
			}
		}
		for _, x := range cls {
			if !e.refinable(e.S.expand(x.E, ic.Lets, 0), ic.Params[0]) {
				continue
			}
			e.prove(st, e.evalB(st, n, x.E), "refines:"+k+":"+x.Label, e.defTags(), "as "+k+" promises: "+x.Src)
		}
	}
}

// refinable says whether the expanded clause x of an interface contract speaks
// about model variables, and about no history kept for the receiver itself
// (such as how often it was called, which is true by definition).
func (e *Eng) refinable(x *Expr, recv string) bool {
	model, own := false, false
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x == nil {
			return
		}
		if x.K == "index" && x.A[0].K == "id" {
			if _, ok := e.S.Ghosts[x.A[0].S]; ok {
				i := x.A[1]
				for i.K == "old" {
					i = i.A[0]
				}
				if e.S.Models[x.A[0].S] != nil {
					model = true
				} else if i.K == "id" && i.S == recv {
					own = true
				}
				walk(x.A[1])
				return
			}
		}
		if x.K == "id" {
			if _, ok := e.S.Ghosts[x.S]; ok {
				own = true
			}
		}
		for _, a := range x.A {
			walk(a)
		}
	}
	walk(x)
	return model && !own
}

func (e *Eng) panicTags() []string { return e.con.Props }

// Label2 names a clause in reports.
func (x *Clause) Label2() string {
	if x.Label != x.Kind {
		return x.Kind + ":" + x.Label
	}
	return x.Kind + "@" + x.Line
}

// ---- frames ----

type target struct {
	key    string // exact key, or prefix ending in "*"
	ref    *Term  // nil: every index
	lo, hi *Term  // element range
}

func (e *Eng) targets(st *State, old *Env) []target {
	var out []target
	for _, m := range e.con.Modifies {
		if mentions(m, e.con.Results) {
			if len(e.con.Results) > 0 {
				if _, ok := old.vars[e.con.Results[0]]; !ok && m.K == "slice" {
					m = &Expr{K: "whole", A: m.A[:1], Line: m.Line} // left by a panic
				}
			}
		}
		out = append(out, e.target(st, old, m)...)
	}
	return out
}

func (e *Eng) target(st *State, n *Env, m *Expr) []target {
	c := e.c
	switch m.K {
	case "id":
		if _, ok := e.S.Ghosts[m.S]; ok {
			return []target{{key: "$" + m.S}}
		}
		if n.pkg != nil {
			if _, ok := n.pkg.Scope().Lookup(m.S).(*types.Var); ok {
				return []target{{key: "G:" + n.pkg.Name() + "." + m.S + "*"}}
			}
		}
	case "index":
		if m.A[0].K == "id" {
			if s, ok := e.S.Ghosts[m.A[0].S]; ok {
				k := e.eval(st, n, m.A[1])
				ks, _ := arrParts(s)
				kt := k.X[0]
				if ks == SIface && kt.Srt != SIface {
					kt = e.mkIface(st, k)
				}
				return []target{{key: "$" + m.A[0].S, ref: kt}}
			}
		}
		v := e.eval(st, n, m.A[0])
		if mt, ok := under2(v.T).(*types.Map); ok {
			k := e.evalT(st, n, m.A[1])
			r := v.X[0]
			return []target{{key: "MD:" + mapKey(mt), ref: r, lo: k, hi: k}, {key: "ML:" + mapKey(mt), ref: r}, {key: "MV:" + mapKey(mt) + "*", ref: r, lo: k, hi: k}}
		}
	case "whole", "slice":
		x := m
		if m.K == "whole" {
			x = m.A[0]
		}
		v := e.eval(st, n, x)
		switch u := under2(v.T).(type) {
		case *types.Slice:
			return []target{{key: "E:" + typeKey(u.Elem()) + "*", ref: v.X[0], lo: v.X[1], hi: c.Add(v.X[1], v.X[2])}}
		case *types.Map:
			r := v.X[0]
			return []target{{key: "MD:" + mapKey(u), ref: r}, {key: "ML:" + mapKey(u), ref: r}, {key: "MV:" + mapKey(u) + "*", ref: r}}
		}
	case "unary":
		if m.S == "*" {
			v := e.eval(st, n, m.A[0])
			if p, ok := under2(v.T).(*types.Pointer); ok {
				return e.structTargets(p.Elem(), v.X[0])
			}
		}
	case "field":
		if b := m.A[0]; b.K == "id" {
			if p := e.P.byName[b.S]; p != nil && e.isPkgRef(n, b.S) {
				return []target{{key: "G:" + b.S + "." + m.S + "*"}}
			}
		}
		b := e.eval(st, n, m.A[0])
		if p, ok := under2(b.T).(*types.Pointer); ok {
			if s, ok := under(p.Elem()).(*types.Struct); ok {
				ct := p.Elem()
				ref := b.X[0]
				idx := fieldPath(s, m.S)
				for k, i := range idx {
					f := under(ct).(*types.Struct).Field(i)
					if k == len(idx)-1 {
						if isAgg(f.Type()) {
							return e.structTargets(f.Type(), e.embRef(ct, f.Name(), ref))
						}
						var out []target
						for _, l := range leaves(f.Type()) {
							out = append(out, target{key: "F:" + structName(ct) + "." + f.Name() + l.suf, ref: ref})
						}
						return out
					}
					ref = e.embRef(ct, f.Name(), ref)
					ct = f.Type()
				}
			}
		}
	}
	specErr(m, "bad modifies target")
	return nil
}

func (e *Eng) isPkgRef(n *Env, name string) bool {
	if _, ok := n.vars[name]; ok {
		return false
	}
	_, ok := e.S.Ghosts[name]
	return !ok
}

func (e *Eng) structTargets(t types.Type, ref *Term) []target {
	if _, ok := under(t).(*types.Struct); !ok {
		if isAgg(t) {
			el := under(t).(*types.Array).Elem()
			return []target{{key: "E:" + typeKey(el) + "*", ref: ref}}
		}
		return []target{{key: "P:" + typeKey(t) + "*", ref: ref}}
	}
	out := []target{{key: "F:" + structName(t) + ".*", ref: ref}}
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); isAgg(f.Type()) && !isSyncType(f.Type()) {
			out = append(out, e.structTargets(f.Type(), e.embRef(t, f.Name(), ref))...)
		}
	}
	return out
}

func keyMatch(pat, key string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(key, pat[:len(pat)-1])
	}
	return pat == key
}

// frame checks that nothing the caller could see changed except what the
// contract lists.
func (e *Eng) frame(st *State, old *Env) {
	c := e.c
	tg := e.targets(st, old)
	for _, k := range sortedKeys(st.heap) {
		h := st.heap[k]
		var o *Term
		if x, ok := st.old[k]; ok {
			o = x
		} else {
			o = c.Const("H!"+k, h.Srt)
		}
		if h == o || k == "oref" {
			continue
		}
		if e.initPkg != nil && strings.HasPrefix(k, "G:"+e.initPkg.Name()+".") {
			continue
		}
		if !strings.HasPrefix(string(h.Srt), "(Array") {
			// scalar ghost
			ok := false
			for _, t := range tg {
				ok = ok || keyMatch(t.key, k)
			}
			if !ok {
				e.prove(st, c.Eq(h, o), "frame:"+k, e.defTags(), k+" is unchanged")
			}
			continue
		}
		ks, vs := arrParts(h.Srt)
		r := c.Const("frame!"+string(k)+"!r", ks)
		var alts []*Term
		all := false
		if ks == SInt && k[0] != '$' {
			alts = append(alts, c.Lt(r, c.Int(0)))
		}
		if ks == SIface && k[0] == '$' {
			alts = append(alts, c.Lt(c.IVal(r), c.Int(0)))
		}
		if ks == SInt && k[0] == '$' {
			alts = append(alts, c.Lt(r, c.Int(0)))
		}
		var inner []*Term // element ranges that may change at the same ref
		j := c.Const("frame!"+string(k)+"!j", innerKey(vs))
		for _, t := range tg {
			if !keyMatch(t.key, k) {
				continue
			}
			switch {
			case t.ref == nil:
				all = true
			case t.lo == nil:
				alts = append(alts, c.Eq(r, t.ref))
			case t.lo == t.hi:
				inner = append(inner, c.And(c.Eq(r, t.ref), c.Eq(j, t.lo)))
			default:
				inner = append(inner, c.And(c.Eq(r, t.ref), c.Le(t.lo, j), c.Lt(j, t.hi)))
			}
		}
		if all {
			continue
		}
		// fields of objects whose lock was taken belong to the monitor
		if k[0] == 'F' {
			for _, a := range st.acqRefs {
				if strings.HasPrefix(k, "F:"+typeKey(a.T)+".") {
					alts = append(alts, c.Eq(r, a.ref))
				}
			}
		}
		if k[0] == 'M' {
			for _, a := range st.acqRefs {
				s := under(a.T).(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if mt, ok := under(s.Field(i).Type()).(*types.Map); ok && strings.HasPrefix(k[3:], mapKey(mt)) {
						m := e.loadField(st, st.old, a.T, i, a.ref)
						alts = append(alts, c.Eq(r, m.X[0]))
					}
				}
			}
		}
		if k == "okind" {
			for _, d := range e.con.Donates {
				alts = append(alts, c.Eq(r, old.vars[d].X[0]))
			}
		}
		if k[0] == 'E' {
			for _, a := range st.acqRefs {
				alts = append(alts, c.And(c.Eq(c.Select(e.okind(st.old), r), c.Int(3)), c.Eq(c.Select(e.oref(st.old), r), a.ref)))
			}
		}
		hv, ov := c.Select(h, r), c.Select(o, r)
		if strings.HasPrefix(string(vs), "(Array") && (k[0] == 'E' || k[0] == 'M') {
			alts = append(alts, c.Eq(c.Select(hv, j), c.Select(ov, j)))
		} else {
			alts = append(alts, c.Eq(hv, ov))
		}
		e.prove(st, c.Or(append(alts, inner...)...), "frame:"+frameName(k), e.frameTags(k), "nothing else changes in "+k)
	}
}

func innerKey(s Sort) Sort {
	if strings.HasPrefix(string(s), "(Array") {
		k, _ := arrParts(s)
		return k
	}
	return SInt
}

func frameName(k string) string {
	if i := strings.LastIndex(k, "@"); i >= 0 {
		return k[:i]
	}
	return k
}

func (e *Eng) frameTags(k string) []string { return e.defTags() }

var _ = ssa.NaiveForm

func hasGhost(ts *TypeSpec, name string) bool {
	for _, g := range ts.Ghost {
		if g.Name == name {
			return true
		}
	}
	return false
}
