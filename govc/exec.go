package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Eng verifies one function.
type Eng struct {
	P        *Program
	S        *Spec
	c        *Ctx
	s        *Session
	tags     map[string]int
	tagT     map[int]types.Type
	ifaces   map[string]types.Type
	implDone map[string]bool
	deferQ   *deferQueue // obligations of path ends are collected here
	cfg      *Config

	initPkg *types.Package // set while a package initialiser is verified
	fnKey   string
	fn      *ssa.Function
	con     *Contract
	entry   *Env            // entry environment (parameters)
	inline  map[string]bool // contracts not to be used at call sites
	noHelp  bool            // ignore contracts of private helpers

	obls        map[string]*Obl
	oblOrder    []string
	mute        int // >0 while analysing loops
	candDumps   int
	loopRegions int
	heapFrom    map[*Term]*loopHeap
	ncell       int
	niter       int
	paths       int
	calls       map[string]int // contracts used
	assumed     map[string]bool
	inlined     map[string]bool
	cardMemo    map[*Term]*Term
	cardBody    map[*Term]*Term
	cardVar     map[*Term]*Term
	cardLinked  map[string]bool
	funcVar     map[*Term]string
	params      map[*Term]bool // of the function: what they refer to existed at entry
	keyType     map[string]types.Type
	strExt      bool
	mapTypes    map[string]*types.Map
	itoaAx      bool
	deadline    int64
	aud         *audit
	nstep       int
	quantMemo   map[string]*Term
	retReach    int
	kindRet     map[string]bool
	stack       []string
	want        string // property whose obligations are decided
	nPort       int
	loopsSeen   int
	loopInvs    int
}

// Config of a run.
type Config struct {
	quickMS   int
	slowSec   int
	maxSteps  int
	verbose   bool
	second    bool // confirm the first instance of every obligation with another solver
	dumpDir   string
	fnSec     int
	seed      int  // random seed of the solver
	scale     int  // factor on the effort spent on candidate invariants, 0 for 1
	audit     bool // look for clauses and code that nothing reaches
	inlineOwn bool // functions of the package under contract are executed from source
}

// Frame is an activation of an SSA function.
type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []deferred
	loops  map[*ssa.BasicBlock]*loopCtx
	depth  int
	top    bool
}

type deferred struct {
	call ssa.CallCommon
	fn   Val
	args []Val
	in   ssa.Instruction
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs)+4)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.loops = make(map[*ssa.BasicBlock]*loopCtx, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return &n
}

// Outcome is one way a call can end.
type Outcome struct {
	st       *State
	panic    bool
	res      []Val
	pv       Val
	internal bool
	why      string
}

// ---- values ----

func (e *Eng) constVal(st *State, k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return e.zero(t)
	}
	switch under(t).(type) {
	case *types.Basic:
		b := under(t).(*types.Basic)
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Val{T: t, X: []*Term{e.c.Bool(constant.BoolVal(k.Value))}}
		case b.Info()&types.IsInteger != 0:
			n, ok := new(big.Int).SetString(constant.ToInt(k.Value).ExactString(), 10)
			if !ok {
				unsup("integer constant %s", k)
			}
			return Val{T: t, X: []*Term{e.c.Big(n)}}
		case b.Info()&types.IsString != 0:
			return Val{T: t, X: []*Term{e.c.Lit(constant.StringVal(k.Value))}}
		case b.Info()&types.IsFloat != 0:
			return Val{T: t, X: []*Term{e.fltConst(k.Value.ExactString())}}
		}
	}
	unsup("constant %s", k)
	return Val{}
}

func (e *Eng) fltConst(s string) *Term {
	if s == "0" {
		return e.c.App("flt!0", SFlt)
	}
	t := e.c.App("flt!c"+s, SFlt)
	if neg := e.fltNeg(t); strings.HasPrefix(s, "-") {
		e.c.Axiom(neg)
	} else {
		e.c.Axiom(e.c.Not(neg))
	}
	return t
}

// fltNeg: the floating-point number is less than zero (so neither zero nor a NaN).
func (e *Eng) fltNeg(x *Term) *Term { return e.c.App("flt", SBool, x, e.c.App("flt!0", SFlt)) }

func (e *Eng) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(st, v)
	case *ssa.Function:
		return Val{T: v.Type(), Fn: &Closure{fn: v}, X: []*Term{e.c.Int(int64(600000 + e.globalID("fn!"+funcKey(v))))}}
	case *ssa.Builtin:
		return Val{T: v.Type()}
	case *ssa.Global:
		return e.globalAddr(v)
	}
	r, ok := fr.regs[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func globalKey(g *ssa.Global) string { return g.Pkg.Pkg.Name() + "." + g.Name() }

func (e *Eng) globalAddr(g *ssa.Global) Val {
	pt := g.Type()
	el := under(pt).(*types.Pointer).Elem()
	if isAgg(el) {
		return Val{T: pt, X: []*Term{e.c.Big(big.NewInt(int64(500000 + e.globalID(globalKey(g)))))}}
	}
	return Val{T: pt, A: &Addr{kind: "global", key: globalKey(g), T: el}, X: []*Term{e.c.Int(int64(600000 + e.globalID(globalKey(g))))}}
}

var globalIDs = map[string]int{}

func (e *Eng) globalID(k string) int {
	gidMu.Lock()
	defer gidMu.Unlock()
	if n, ok := globalIDs[k]; ok {
		return n
	}
	globalIDs[k] = len(globalIDs) + 1
	return len(globalIDs)
}

var errAlias = map[string]string{"os.ErrClosed": "fs.ErrClosed", "os.ErrNotExist": "fs.ErrNotExist", "os.ErrExist": "fs.ErrExist",
	"os.ErrInvalid": "fs.ErrInvalid", "os.ErrPermission": "fs.ErrPermission", "oserror.ErrClosed": "fs.ErrClosed"}

// globalVal is the value of a package variable that is never reassigned.
func (e *Eng) globalVal(st *State, m map[string]*Term, pkg *types.Package, name string, t types.Type) Val {
	key := pkg.Name() + "." + name
	if a, ok := errAlias[key]; ok {
		key = a
	}
	repo := strings.HasPrefix(pkg.Path(), modPath)
	var g *ssa.Global
	if sp := e.P.prog.Package(pkg); sp != nil {
		g = sp.Var(name)
	}
	if e.initPkg == pkg && name == "init$guard" {
		return Val{T: t, X: []*Term{e.c.F}}
	}
	if repo && (e.initPkg == pkg || e.S.Mutable[key] || (g != nil && e.P.stored[g])) {
		k := "G:" + key
		v := Val{T: t}
		for _, l := range leaves(t) {
			kk := k + l.suf
			v.X = append(v.X, e.c.Select(e.hget(m, kk, e.heapSort(kk, l.srt)), e.c.Int(0)))
		}
		e.typeFacts(st, v)
		return v
	}
	if repo && g != nil {
		if iv, ok := e.P.initOf[g]; ok {
			if v, ok := e.initVal(st, iv, t, key); ok {
				return v
			}
		}
	}
	e.assumed["package variable "+key+" is never reassigned"] = true
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		tn := "*errors.errorString"
		if key == "http.ErrNotSupported" {
			tn = "*http.ProtocolError"
		}
		return Val{T: t, X: []*Term{e.c.MkI(e.namedTag(tn), e.c.Int(int64(700000+e.globalID(key))))}}
	}
	v := Val{T: t}
	for _, l := range leaves(t) {
		v.X = append(v.X, e.c.Const("G!"+key+l.suf, l.srt))
	}
	if len(v.X) == 1 {
		switch under(t).(type) {
		case *types.Pointer, *types.Map, *types.Signature:
			v.X[0] = e.c.Int(int64(800000 + e.globalID(key)))
		case *types.Interface:
			e.add(st, e.c.Lt(e.c.Int(0), e.c.ITyp(v.X[0])))
			if st != nil {
				e.add(st, e.c.Eq(e.c.IVal(v.X[0]), e.c.Int(int64(800000+e.globalID(key)))))
			}
		}
	}
	e.typeFacts(st, v)
	return v
}

// namedTag returns the tag of a type given by name only.
func (e *Eng) namedTag(name string) *Term {
	switch name {
	case "*errors.errorString":
		if p := e.P.byName["errors"]; p != nil {
			if o := p.Scope().Lookup("errorString"); o != nil {
				return e.tag(types.NewPointer(o.Type()))
			}
		}
	case "*http.ProtocolError":
		if p := e.P.byName["http"]; p != nil {
			if o := p.Scope().Lookup("ProtocolError"); o != nil {
				return e.tag(types.NewPointer(o.Type()))
			}
		}
	}
	return e.c.Const("tag!"+name, SInt)
}

func (e *Eng) initVal(st *State, v ssa.Value, t types.Type, key string) (Val, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(st, v), true
	case *ssa.MakeInterface:
		in, ok := e.initVal(st, v.X, v.X.Type(), key+"!v")
		if !ok {
			return Val{}, false
		}
		return Val{T: t, X: []*Term{e.mkIface(st, in)}}, true
	case *ssa.Alloc:
		return Val{T: v.Type(), X: []*Term{e.c.Int(int64(800000 + e.globalID(key)))}}, true
	case *ssa.Function:
		return e.val(st, nil, v), true
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && !isAgg(t) {
			return e.globalVal(st, st.heap, g.Pkg.Pkg, g.Name(), t), true
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && funcKey(f) == "http.CanonicalHeaderKey" {
			if k, ok := v.Call.Args[0].(*ssa.Const); ok {
				x := e.constVal(st, k)
				return Val{T: t, X: []*Term{e.canon(st, x.X[0])}}, true
			}
		}
	}
	return Val{}, false
}

// ---- checks ----

// must is a check made by the Go runtime: a panicking path is forked when it
// cannot be excluded. It returns the panicking outcome states.
func (e *Eng) must(st *State, ok *Term, why string, pos token.Pos) []Outcome {
	if ok == e.c.T {
		return nil
	}
	var outs []Outcome
	if ok != e.c.F && e.valid(st, ok) {
		e.add(st, ok)
		return nil
	}
	p := st.clone()
	e.add(p, e.c.Not(ok))
	pv := Val{T: types.NewInterfaceType(nil, nil), X: []*Term{e.c.MkI(e.c.Const("tag!runtime.Error", SInt), e.c.Fresh("rterr", SInt))}}
	outs = append(outs, Outcome{st: p, panic: true, pv: pv, internal: true, why: why + " at " + e.pos(pos)})
	e.add(st, ok)
	return outs
}

func (e *Eng) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := e.P.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// valid asks the solver whether goal follows (quick).
func (e *Eng) valid(st *State, goal *Term) bool { return e.validIn(st, goal, 400) }

func (e *Eng) validIn(st *State, goal *Term, ms int) bool {
	if goal == e.c.T {
		return true
	}
	if goal == e.c.F {
		return false
	}
	if st.fset[goal] {
		return true
	}
	if st.fset[e.c.Not(goal)] {
		return false
	}
	return e.s.Check(st.facts, goal, ms) == "unsat"
}

// feasible reports whether the path can be continued with cond.
func (e *Eng) feasible(st *State, cond *Term) bool {
	if cond == e.c.F || st.fset[e.c.Not(cond)] {
		return false
	}
	if cond == e.c.T || st.fset[cond] {
		return true
	}
	return e.s.Check(st.facts, e.c.Not(cond), e.feasMS()) != "unsat"
}

func (e *Eng) dead(st *State) bool {
	return e.s.Check(st.facts, e.c.F, e.feasMS()) == "unsat"
}

// feasMS limits feasibility checks: a path wrongly kept costs time, nothing
// else.
func (e *Eng) feasMS() int {
	if e.mute > 0 {
		return 20
	}
	return 100
}

// inRange makes integer term x of Go type t exact: wrap-around is applied
// unless the solver shows it cannot happen.
func (e *Eng) inRange(st *State, x *Term, t types.Type) *Term {
	lo, hi := intRange(t)
	if x.num != nil {
		if x.num.Cmp(lo) >= 0 && x.num.Cmp(hi) <= 0 {
			return x
		}
		m := new(big.Int).Sub(new(big.Int).Add(hi, big.NewInt(1)), lo)
		r := new(big.Int).Mod(new(big.Int).Sub(x.num, lo), m)
		return e.c.Big(r.Add(r, lo))
	}
	ok := e.c.And(e.c.Le(e.c.Big(lo), x), e.c.Le(x, e.c.Big(hi)))
	if e.valid(st, ok) {
		e.add(st, ok)
		return x
	}
	m := new(big.Int).Sub(new(big.Int).Add(hi, big.NewInt(1)), lo)
	one := e.c.Big(m)
	// one-step wrap when the value is within one period, else modulo
	lo1 := new(big.Int).Sub(lo, m)
	hi1 := new(big.Int).Add(hi, m)
	if e.valid(st, e.c.And(e.c.Le(e.c.Big(lo1), x), e.c.Le(x, e.c.Big(hi1)))) {
		r := e.c.Ite(e.c.Lt(e.c.Big(hi), x), e.c.Sub(x, one), e.c.Ite(e.c.Lt(x, e.c.Big(lo)), e.c.Add(x, one), x))
		v := e.c.Fresh("wrap", SInt)
		e.add(st, e.c.Eq(v, r))
		e.add(st, e.c.And(e.c.Le(e.c.Big(lo), v), e.c.Le(v, e.c.Big(hi))))
		return v
	}
	v := e.c.Fresh("wrap", SInt)
	e.add(st, e.c.Eq(v, e.c.Add(e.c.Mod(e.c.Sub(x, e.c.Big(lo)), m), e.c.Big(lo))))
	e.add(st, e.c.And(e.c.Le(e.c.Big(lo), v), e.c.Le(v, e.c.Big(hi))))
	return v
}

// ---- function calls ----

// invoke runs the body of fn on args.
func (e *Eng) invokeBody(st *State, fn *ssa.Function, args []Val, free []Val, top bool) []Outcome {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	for _, s := range e.stack {
		if s == fn.String() && strings.Count(strings.Join(e.stack, "|"), fn.String()) > 2 {
			unsup("recursion through %s", fn)
		}
	}
	if len(e.stack) > 24 {
		unsup("call depth")
	}
	e.stack = append(e.stack, fn.String())
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, top: top}
	for i, p := range fn.Params {
		a := args[i]
		a.T = p.Type()
		fr.regs[p] = a
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = free[i]
	}
	return e.block(st, fr, fn.Blocks[0], nil)
}

// block executes blk coming from block from.
func (e *Eng) block(st *State, fr *Frame, blk, from *ssa.BasicBlock) []Outcome {
	// leaving a loop under analysis ends the path
	for _, lc := range fr.loops {
		if lc.analysis && !lc.body[blk] {
			return nil
		}
	}
	if body := e.loopBody(fr.fn, blk); body != nil {
		if from != nil && body[from] {
			if lc := fr.loops[blk]; lc != nil {
				e.phis(st, fr, blk, from)
				if lc.unroll {
					return e.instrs(st, fr, blk, 0)
				}
				lc.back(st, fr)
				return nil
			}
		}
		return e.loop(st, fr, blk, from, body)
	}
	e.phis(st, fr, blk, from)
	return e.instrs(st, fr, blk, 0)
}

func (e *Eng) phis(st *State, fr *Frame, blk, from *ssa.BasicBlock) {
	if from == nil {
		return
	}
	var idx int
	for i, p := range blk.Preds {
		if p == from {
			idx = i
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := e.val(st, fr, ph.Edges[idx])
		v.T = ph.Type()
		vals[ph] = v
	}
	for ph, v := range vals {
		fr.regs[ph] = v
	}
}

func (e *Eng) instrs(st *State, fr *Frame, blk *ssa.BasicBlock, i int) []Outcome {
	for ; i < len(blk.Instrs); i++ {
		e.nstep++
		if e.nstep > e.cfg.maxSteps {
			unsup("step budget exceeded")
		}
		in := blk.Instrs[i]
		if e.aud != nil {
			e.audBlock(st, blk, i)
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return e.block(st, fr, blk.Succs[0], blk)
		case *ssa.If:
			cond := e.val(st, fr, in.Cond).X[0]
			if cond == e.c.T {
				return e.block(st, fr, blk.Succs[0], blk)
			}
			if cond == e.c.F {
				return e.block(st, fr, blk.Succs[1], blk)
			}
			ncond := e.c.Not(cond)
			if !e.feasible(st, cond) {
				e.add(st, ncond)
				return e.block(st, fr, blk.Succs[1], blk)
			}
			if !e.feasible(st, ncond) {
				e.add(st, cond)
				return e.block(st, fr, blk.Succs[0], blk)
			}
			s2, f2 := st.clone(), fr.clone()
			e.add(st, cond)
			st.trace = append(st.trace, e.pos(in.Cond.Pos())+":T")
			outs := e.block(st, fr, blk.Succs[0], blk)
			e.add(s2, ncond)
			s2.trace = append(s2.trace, e.pos(in.Cond.Pos())+":F")
			return append(outs, e.block(s2, f2, blk.Succs[1], blk)...)
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, e.val(st, fr, r))
			}
			if e.analysing(fr) {
				return nil
			}
			return []Outcome{{st: st, res: res}}
		case *ssa.Panic:
			pv := e.val(st, fr, in.X)
			if nil0 := e.c.Eq(pv.X[0], e.c.NilI()); nil0 != e.c.F && pv.X[0].Srt == SIface && !e.valid(st, e.c.Not(nil0)) {
				// panic(nil): recover returns nil or, with a newer main module, a *runtime.PanicNilError
				x := e.c.Fresh("panicnil", SIface)
				e.add(st, e.c.Or(nil0, e.c.Eq(x, pv.X[0])))
				pv.X = []*Term{x}
			}
			return e.unwind(st, fr, Outcome{st: st, panic: true, pv: pv, internal: true, why: "panic at " + e.pos(in.Pos())})
		case *ssa.Call:
			outs := e.call(st, fr, &in.Call, in)
			return e.after(outs, fr, in, func(st2 *State, fr2 *Frame, res []Val) []Outcome {
				e.setRes(fr2, in, res)
				return e.instrs(st2, fr2, blk, i+1)
			})
		case *ssa.Defer:
			d := deferred{call: in.Call, in: in}
			if !in.Call.IsInvoke() {
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					d.fn = e.val(st, fr, in.Call.Value)
				}
			} else {
				d.fn = e.val(st, fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, e.val(st, fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			outs := e.runDefers(st, fr)
			return e.after(outs, fr, in, func(st2 *State, fr2 *Frame, res []Val) []Outcome {
				fr2.defers = nil
				return e.instrs(st2, fr2, blk, i+1)
			})
		default:
			if pan := e.instr(st, fr, in); len(pan) > 0 {
				var outs []Outcome
				for _, p := range pan {
					outs = append(outs, e.unwind(p.st, fr.clone(), p)...)
				}
				// the state may have become contradictory
				if e.dead(st) {
					return outs
				}
				return append(outs, e.instrs(st, fr, blk, i+1)...)
			}
		}
	}
	return nil
}

func (e *Eng) analysing(fr *Frame) bool {
	for _, lc := range fr.loops {
		if lc.analysis {
			return true
		}
	}
	return false
}

// after continues each normal outcome with k and unwinds each panicking one.
func (e *Eng) after(outs []Outcome, fr *Frame, in ssa.Instruction, k func(*State, *Frame, []Val) []Outcome) []Outcome {
	var res []Outcome
	for i, o := range outs {
		f := fr
		if i < len(outs)-1 {
			f = fr.clone()
		}
		if o.panic {
			res = append(res, e.unwind(o.st, f, o)...)
		} else {
			res = append(res, k(o.st, f, o.res)...)
		}
	}
	return res
}

func (e *Eng) setRes(fr *Frame, in *ssa.Call, res []Val) {
	switch {
	case len(res) == 0:
		fr.regs[in] = Val{T: in.Type()}
	case len(res) == 1:
		v := res[0]
		if _, ok := in.Type().(*types.Tuple); !ok {
			v.T = in.Type()
		}
		fr.regs[in] = v
	default:
		fr.regs[in] = Val{T: in.Type(), Tup: res}
	}
}

// unwind runs the deferred calls of a panicking frame.
func (e *Eng) unwind(st *State, fr *Frame, o Outcome) []Outcome {
	if e.analysing(fr) {
		return nil
	}
	if len(fr.defers) == 0 {
		o.st = st
		return []Outcome{o}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	st.panicv = append(st.panicv, panicCtx{val: o.pv, internal: o.internal, why: o.why})
	n := len(st.panicv)
	outs := e.callDeferred(st, fr, d)
	var res []Outcome
	for i, r := range outs {
		f := fr
		if i < len(outs)-1 {
			f = fr.clone()
		}
		pc := r.st.panicv[n-1]
		r.st.panicv = r.st.panicv[:n-1]
		switch {
		case r.panic: // the deferred call panicked: replaces the panic
			res = append(res, e.unwind(r.st, f, r)...)
		case pc.recovered:
			res = append(res, e.recovered(r.st, f)...)
		default:
			res = append(res, e.unwind(r.st, f, o)...)
		}
	}
	return res
}

// recovered returns normally from fr after a recover: the remaining deferred
// calls run and the named results are returned.
func (e *Eng) recovered(st *State, fr *Frame) []Outcome {
	outs := e.runDefers(st, fr)
	return e.after(outs, fr, nil, func(st2 *State, fr2 *Frame, _ []Val) []Outcome {
		fr2.defers = nil
		if fr2.fn.Recover != nil {
			return e.instrs(st2, fr2, fr2.fn.Recover, 0)
		}
		var res []Val
		rs := fr2.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, e.zero(rs.At(i).Type()))
		}
		return []Outcome{{st: st2, res: res}}
	})
}

func (e *Eng) runDefers(st *State, fr *Frame) []Outcome {
	if len(fr.defers) == 0 {
		return []Outcome{{st: st}}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	outs := e.callDeferred(st, fr, d)
	var res []Outcome
	for i, o := range outs {
		f := fr
		if i < len(outs)-1 {
			f = fr.clone()
		}
		if o.panic {
			res = append(res, o) // instrs' after() unwinds with the remaining defers
			_ = f
			continue
		}
		res = append(res, e.runDefers(o.st, f)...)
	}
	return res
}

func (e *Eng) callDeferred(st *State, fr *Frame, d deferred) []Outcome {
	return e.callWith(st, fr, &d.call, d.fn, d.args, d.in)
}

// ---- instructions ----

// instr executes a non-control instruction; it returns panicking outcomes.
func (e *Eng) instr(st *State, fr *Frame, in ssa.Instruction) []Outcome {
	c := e.c
	switch in := in.(type) {
	case *ssa.Alloc:
		pt := in.Type()
		el := under(pt).(*types.Pointer).Elem()
		if isAgg(el) {
			r := e.alloc(st, el)
			fr.regs[in] = Val{T: pt, X: []*Term{r}}
			return nil
		}
		e.ncell++
		id := e.ncell
		st.cells[id] = e.zero(el)
		r := e.newRef(st)
		fr.regs[in] = Val{T: pt, X: []*Term{r}, A: &Addr{kind: "cell", cell: id, T: el}}
		return nil
	case *ssa.BinOp:
		v, pan := e.binop(st, in.Op, e.val(st, fr, in.X), e.val(st, fr, in.Y), in.Type(), in.Pos())
		fr.regs[in] = v
		return pan
	case *ssa.UnOp:
		return e.unop(st, fr, in)
	case *ssa.ChangeType:
		v := e.val(st, fr, in.X)
		v.T = in.Type()
		fr.regs[in] = v
		return nil
	case *ssa.Convert:
		fr.regs[in] = e.convert(st, e.val(st, fr, in.X), in.Type())
		return nil
	case *ssa.MultiConvert:
		unsup("generic conversion")
	case *ssa.ChangeInterface:
		v := e.val(st, fr, in.X)
		fr.regs[in] = Val{T: in.Type(), X: v.X}
		st.wasIface(v.X[0], in.X.Type())
		return nil
	case *ssa.MakeInterface:
		v := e.val(st, fr, in.X)
		t := e.mkIface(st, v)
		fr.regs[in] = Val{T: in.Type(), X: []*Term{t}}
		if v.A != nil || v.Fn != nil {
			st.dyn[e.c.IVal(t)] = v
		}
		return nil
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.free = append(cl.free, e.val(st, fr, b))
		}
		fr.regs[in] = Val{T: in.Type(), Fn: cl, X: []*Term{e.newRef(st)}}
		return nil
	case *ssa.MakeMap:
		fr.regs[in] = Val{T: in.Type(), X: []*Term{e.makeMap(st, in.Type())}}
		return nil
	case *ssa.MakeSlice:
		ln, cp := e.val(st, fr, in.Len).X[0], e.val(st, fr, in.Cap).X[0]
		pan := e.must(st, c.And(c.Le(c.Int(0), ln), c.Le(ln, cp)), "makeslice: length out of range", in.Pos())
		st2 := under(in.Type()).(*types.Slice)
		e.add(st, c.Le(cp, c.Big(maxMem))) // exhausting memory is not modelled
		fr.regs[in] = e.makeSlice(st, in.Type(), st2.Elem(), ln, cp)
		return pan
	case *ssa.MakeChan:
		unsup("channels")
	case *ssa.FieldAddr:
		v, pan := e.fieldAddr(st, e.val(st, fr, in.X), in.Field, in.Type(), in.Pos())
		fr.regs[in] = v
		return pan
	case *ssa.Field:
		v := e.val(st, fr, in.X)
		lo, hi := fieldRange(v.T, in.Field)
		fr.regs[in] = Val{T: in.Type(), X: v.X[lo:hi]}
		return nil
	case *ssa.IndexAddr:
		return e.indexAddr(st, fr, in)
	case *ssa.Index:
		v := e.val(st, fr, in.X)
		i := e.val(st, fr, in.Index).X[0]
		if b, ok := under(v.T).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			pan := e.must(st, c.And(c.Le(c.Int(0), i), c.Lt(i, e.slen(st, v.X[0]))), "index out of range", in.Pos())
			r := c.App("sbyte", SInt, v.X[0], i)
			e.add(st, c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(255))))
			fr.regs[in] = Val{T: in.Type(), X: []*Term{r}}
			return pan
		}
		fr.regs[in] = e.fresh(st, "index", in.Type())
		return nil
	case *ssa.Lookup:
		return e.lookup(st, fr, in)
	case *ssa.MapUpdate:
		m := e.val(st, fr, in.Map)
		pan := e.must(st, c.Ne(m.X[0], c.Int(0)), "assignment to entry in nil map", in.Pos())
		e.mapSet(st, under(m.T).(*types.Map), m.X[0], e.val(st, fr, in.Key), e.val(st, fr, in.Value))
		return pan
	case *ssa.Slice:
		return e.sliceOp(st, fr, in)
	case *ssa.Store:
		p := e.val(st, fr, in.Addr)
		pan := e.nilcheck(st, p, in.Pos())
		e.storeP(st, p, e.val(st, fr, in.Val))
		return pan
	case *ssa.TypeAssert:
		st.wasIface(e.val(st, fr, in.X).X[0], in.X.Type())
		return e.typeAssert(st, fr, in)
	case *ssa.Extract:
		t := e.val(st, fr, in.Tuple)
		v := t.Tup[in.Index]
		if v.T == nil || len(v.X) > 0 || v.Fn != nil {
			v.T = in.Type()
		}
		fr.regs[in] = v
		return nil
	case *ssa.Range:
		m := e.val(st, fr, in.X)
		mt, ok := under(m.T).(*types.Map)
		if !ok {
			fr.regs[in] = Val{T: in.Type(), X: m.X}
			return nil
		}
		e.niter++
		id := e.niter
		ks := leaves(mt.Key())
		if len(ks) != 1 {
			unsup("map key type %s", mt.Key())
		}
		it := &mapIter{m: m.X[0], mt: mt, ksrt: ks[0].srt}
		it.dom = e.mapDom(st.heap, mt, m.X[0])
		it.vis = c.ConstArr(ArrOf(ks[0].srt, SBool), c.F)
		st.iters[id] = it
		fr.regs[in] = Val{T: in.Type(), It: id}
		return nil
	case *ssa.Next:
		// handled as a choice by nextMap
		return e.next(st, fr, in)
	case *ssa.Go, *ssa.Select, *ssa.Send:
		unsup("goroutines and channels: %s", in)
	}
	unsup("instruction %T %s", in, in)
	return nil
}

// alloc allocates a zeroed aggregate.
func (e *Eng) alloc(st *State, t types.Type) *Term {
	r := e.newRef(st)
	z := Val{T: t}
	if _, ok := under(t).(*types.Array); ok {
		z.X = []*Term{e.c.Int(0)}
		st.heap["okind"] = e.c.Store(e.okind(st.heap), r, e.c.Int(2))
	} else {
		z = e.zero(t)
	}
	e.storeRef(st, t, r, z)
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if ts := e.S.Types[typeKey(n)]; ts != nil {
			if !stdModel(n) {
				st.unshared = append(st.unshared, unsh{r, n})
			}
			for _, g := range ts.Ghost {
				k := "F:" + typeKey(n) + ".$" + g.Name
				var z *Term
				switch g.Sort {
				case SInt:
					z = e.c.Int(0)
				case SBool:
					z = e.c.F
				case SIface:
					z = e.c.NilI()
				case SStr:
					z = e.c.Lit("")
				default:
					continue
				}
				st.heap[k] = e.c.Store(e.hget(st.heap, k, ArrOf(SInt, g.Sort)), r, z)
			}
		}
		e.noteElem(st, r, n)
	}
	return r
}

// noteElem remembers references as candidate elements of counted sets.
func (e *Eng) noteElem(st *State, r *Term, t types.Type) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return
	}
	ts := e.S.Types[typeKey(n)]
	if ts == nil || len(ts.Joint) == 0 {
		return
	}
	for _, x := range st.celems {
		if x == r {
			return
		}
	}
	st.celems = append(st.celems, r)
	e.linkCards(st)
}

func (e *Eng) okind(m map[string]*Term) *Term { return e.hget(m, "okind", ArrOf(SInt, SInt)) }
func (e *Eng) oref(m map[string]*Term) *Term  { return e.hget(m, "oref", ArrOf(SInt, SInt)) }

func (e *Eng) makeSlice(st *State, t, el types.Type, ln, cp *Term) Val {
	r := e.newRef(st)
	for _, l := range leaves(el) {
		k := "E:" + typeKey(el) + l.suf
		h := e.hget(st.heap, k, e.heapSort(k, l.srt))
		st.heap[k] = e.c.Store(h, r, e.c.ConstArr(ArrOf(SInt, l.srt), e.zeroLeaf(l)))
	}
	st.heap["okind"] = e.c.Store(e.okind(st.heap), r, e.c.Int(2))
	return Val{T: t, X: []*Term{r, e.c.Int(0), ln, cp}}
}

func (e *Eng) nilcheck(st *State, p Val, pos token.Pos) []Outcome {
	if p.A != nil || len(p.X) == 0 {
		return nil
	}
	if p.X[0].num != nil && p.X[0].num.Sign() != 0 {
		return nil
	}
	if _, _, ok := e.owner(p.X[0]); ok {
		return nil
	}
	return e.must(st, e.c.Ne(p.X[0], e.c.Int(0)), "nil pointer dereference", pos)
}

func (e *Eng) fieldAddr(st *State, p Val, i int, pt types.Type, pos token.Pos) (Val, []Outcome) {
	if p.A != nil && p.A.kind == "elem" {
		// field of a struct stored in an array
		s := under(p.A.T).(*types.Struct)
		f := s.Field(i)
		a := *p.A
		a.key += "." + f.Name()
		a.T = f.Type()
		return Val{T: pt, A: &a, X: []*Term{e.c.Fresh("addr", SInt)}}, nil
	}
	if p.A != nil {
		unsup("field address through %s", p.A.kind)
	}
	pan := e.nilcheck(st, p, pos)
	t := under(p.T).(*types.Pointer).Elem()
	s := under(t).(*types.Struct)
	f := s.Field(i)
	if isAgg(f.Type()) {
		return Val{T: pt, X: []*Term{e.embRef(t, f.Name(), p.X[0])}}, pan
	}
	a := &Addr{kind: "heap", key: "F:" + structName(t) + "." + f.Name(), ref: p.X[0], T: f.Type(), own: p.X[0], fld: f.Name()}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		a.ownT = n
	}
	return Val{T: pt, A: a, X: []*Term{e.embRefQuiet(a, p.X[0])}}, pan
}

func (e *Eng) embRefQuiet(a *Addr, r *Term) *Term { return e.c.App("fa!"+a.key, SInt, r) }

func (e *Eng) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) []Outcome {
	c := e.c
	x := e.val(st, fr, in.X)
	i := e.val(st, fr, in.Index).X[0]
	switch u := under(x.T).(type) {
	case *types.Slice:
		pan := e.must(st, c.And(c.Le(c.Int(0), i), c.Lt(i, x.X[2])), "index out of range", in.Pos())
		fr.regs[in] = e.elemAddr(in.Type(), u.Elem(), x.X[0], c.Add(x.X[1], i))
		return pan
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		pan := e.must(st, c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(at.Len()))), "index out of range", in.Pos())
		fr.regs[in] = e.elemAddr(in.Type(), at.Elem(), x.X[0], i)
		return pan
	}
	unsup("IndexAddr on %s", x.T)
	return nil
}

func (e *Eng) elemAddr(pt, el types.Type, arr, idx *Term) Val {
	return Val{T: pt, A: &Addr{kind: "elem", key: "E:" + typeKey(el), ref: arr, idx: idx, T: el}, X: []*Term{e.c.App("ea!"+typeKey(el), SInt, arr, idx)}}
}

// storeP stores, handling struct elements and globals.
func (e *Eng) storeP(st *State, p Val, v Val) {
	if p.A != nil && p.A.kind == "global" {
		k := "G:" + p.A.key
		for i, l := range leaves(p.A.T) {
			kk := k + l.suf
			st.heap[kk] = e.c.Store(e.hget(st.heap, kk, e.heapSort(kk, l.srt)), e.c.Int(0), v.X[i])
		}
		return
	}
	e.store(st, p, v)
}

func (e *Eng) unop(st *State, fr *Frame, in *ssa.UnOp) []Outcome {
	c := e.c
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			el := in.Type()
			if isAgg(el) {
				fr.regs[in] = e.loadRef(st, st.heap, el, e.globalAddr(g).X[0])
				return nil
			}
			v := e.globalVal(st, st.heap, g.Pkg.Pkg, g.Name(), el)
			if _, ok := under(el).(*types.Signature); ok && v.Fn == nil {
				d := Val{T: el, Fn: nil}
				_ = d
				st.trace = append(st.trace, "")
				st.trace = st.trace[:len(st.trace)-1]
				e.noteFuncVar(v.X[0], globalKey(g))
			}
			fr.regs[in] = v
			return nil
		}
		p := e.val(st, fr, in.X)
		pan := e.nilcheck(st, p, in.Pos())
		v := e.load(st, p)
		v.T = in.Type()
		fr.regs[in] = v
		return pan
	case token.NOT:
		v := e.val(st, fr, in.X)
		fr.regs[in] = Val{T: in.Type(), X: []*Term{c.Not(v.X[0])}}
		return nil
	case token.SUB:
		v := e.val(st, fr, in.X)
		if v.X[0].Srt == SFlt {
			fr.regs[in] = Val{T: in.Type(), X: []*Term{c.App("fneg", SFlt, v.X[0])}}
			return nil
		}
		fr.regs[in] = Val{T: in.Type(), X: []*Term{e.inRange(st, c.Sub(c.Int(0), v.X[0]), in.Type())}}
		return nil
	case token.XOR:
		v := e.val(st, fr, in.X)
		// ^x == -1 - x (signed) or max - x (unsigned)
		_, hi := intRange(in.Type())
		b := under(in.Type()).(*types.Basic)
		if b.Info()&types.IsUnsigned != 0 {
			fr.regs[in] = Val{T: in.Type(), X: []*Term{c.Sub(c.Big(hi), v.X[0])}}
		} else {
			fr.regs[in] = Val{T: in.Type(), X: []*Term{c.Sub(c.Int(-1), v.X[0])}}
		}
		return nil
	}
	unsup("unary %s", in.Op)
	return nil
}

func (e *Eng) slen(st *State, s *Term) *Term {
	if v, ok := e.c.LitVal(s); ok {
		return e.c.Int(int64(len(v)))
	}
	if s.Op == "strcat" {
		return e.c.Add(e.slen(st, s.Args[0]), e.slen(st, s.Args[1]))
	}
	r := e.c.App("slen", SInt, s)
	if st != nil && !r.bound {
		e.add(st, e.c.Le(e.c.Int(0), r))
		e.add(st, e.c.Le(r, e.c.Big(maxMem)))
	}
	return r
}

func (e *Eng) binop(st *State, op token.Token, x, y Val, t types.Type, pos token.Pos) (Val, []Outcome) {
	c := e.c
	b1 := func(v *Term) (Val, []Outcome) { return Val{T: t, X: []*Term{v}}, nil }
	switch op {
	case token.EQL:
		return b1(e.equal(st, x, y))
	case token.NEQ:
		return b1(c.Not(e.equal(st, x, y)))
	}
	a, b := x.X[0], y.X[0]
	switch a.Srt {
	case SStr:
		switch op {
		case token.ADD:
			return b1(c.Cat(a, b))
		case token.LSS:
			return b1(c.App("strlt", SBool, a, b))
		case token.GTR:
			return b1(c.App("strlt", SBool, b, a))
		case token.LEQ:
			return b1(c.Not(c.App("strlt", SBool, b, a)))
		case token.GEQ:
			return b1(c.Not(c.App("strlt", SBool, a, b)))
		}
	case SFlt:
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			n := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}[op]
			r := c.App(n, SFlt, a, b)
			// the sign of a sum, a product and a quotient by a positive constant
			if na, nb := e.fltNeg(a), e.fltNeg(b); !r.bound && (op == token.ADD || op == token.MUL || op == token.QUO && strings.HasPrefix(b.Op, "flt!c")) {
				c.Axiom(c.Or(na, nb, c.Not(e.fltNeg(r))))
			}
			return b1(r)
		case token.LSS:
			return b1(c.App("flt", SBool, a, b))
		case token.GTR:
			return b1(c.App("flt", SBool, b, a))
		case token.LEQ:
			return b1(c.App("fle", SBool, a, b))
		case token.GEQ:
			return b1(c.App("fle", SBool, b, a))
		}
	case SInt:
		switch op {
		case token.LSS:
			return b1(c.Lt(a, b))
		case token.LEQ:
			return b1(c.Le(a, b))
		case token.GTR:
			return b1(c.Lt(b, a))
		case token.GEQ:
			return b1(c.Le(b, a))
		case token.ADD:
			return b1(e.inRange(st, c.Add(a, b), t))
		case token.SUB:
			return b1(e.inRange(st, c.Sub(a, b), t))
		case token.MUL:
			return b1(e.inRange(st, c.Mul(a, b), t))
		case token.QUO, token.REM:
			pan := e.must(st, c.Ne(b, c.Int(0)), "integer divide by zero", pos)
			// truncated division
			var q *Term
			if b.num != nil && b.num.Sign() > 0 && e.valid(st, c.Le(c.Int(0), a)) {
				q = c.mk("div", SInt, a, b)
			} else {
				q = c.Fresh("quo", SInt)
				r := c.Sub(a, c.Mul(q, b))
				nonneg := c.Le(c.Int(0), a)
				e.add(st, c.Imp(nonneg, c.Le(c.Int(0), r)))
				e.add(st, c.Imp(c.Not(nonneg), c.Le(r, c.Int(0))))
				ab := c.Ite(c.Le(c.Int(0), b), b, c.Sub(c.Int(0), b))
				e.add(st, c.Lt(r, ab))
				e.add(st, c.Lt(c.Sub(c.Int(0), ab), r))
			}
			if op == token.QUO {
				return Val{T: t, X: []*Term{e.inRange(st, q, t)}}, pan
			}
			return Val{T: t, X: []*Term{c.Sub(a, c.Mul(q, b))}}, pan
		case token.SHL:
			pan := e.must(st, c.Le(c.Int(0), b), "negative shift", pos)
			if b.num != nil && b.num.IsInt64() && b.num.Int64() < 64 {
				return Val{T: t, X: []*Term{e.inRange(st, c.Mul(c.Big(new(big.Int).Lsh(big.NewInt(1), uint(b.num.Int64()))), a), t)}}, pan
			}
			return Val{T: t, X: []*Term{e.opaqueInt(st, "shl", t, a, b)}}, pan
		case token.SHR:
			pan := e.must(st, c.Le(c.Int(0), b), "negative shift", pos)
			if b.num != nil && b.num.IsInt64() && b.num.Int64() < 64 {
				return Val{T: t, X: []*Term{c.mk("div", SInt, a, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(b.num.Int64()))))}}, pan
			}
			return Val{T: t, X: []*Term{e.opaqueInt(st, "shr", t, a, b)}}, pan
		case token.AND_NOT, token.AND:
			// masks of the form 2^k-1
			if m := maskBits(b); m != nil && e.valid(st, c.Le(c.Int(0), a)) {
				low := c.Mod(a, m)
				if op == token.AND {
					return b1(low)
				}
				return b1(c.Sub(a, low))
			}
			if op == token.AND {
				if m := maskBits(a); m != nil && e.valid(st, c.Le(c.Int(0), b)) {
					return b1(c.Mod(b, m))
				}
				// x & ^(2^k-1) with an unsigned or negative constant mask
				for _, pr := range [][2]*Term{{a, b}, {b, a}} {
					if pr[1].num != nil {
						inv := new(big.Int).Neg(pr[1].num) // signed: ^(2^k-1) == -2^k
						if _, hi := intRange(t); pr[1].num.Sign() > 0 {
							inv = new(big.Int).Sub(new(big.Int).Add(hi, big.NewInt(1)), pr[1].num)
						}
						if inv.Sign() > 0 && isPow2(inv) && e.valid(st, c.Le(c.Int(0), pr[0])) {
							return b1(c.Sub(pr[0], c.Mod(pr[0], inv)))
						}
					}
				}
			}
			return b1(e.opaqueInt(st, op.String(), t, a, b))
		case token.OR, token.XOR:
			return b1(e.opaqueInt(st, op.String(), t, a, b))
		}
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return b1(c.And(a, b))
		case token.OR, token.LOR:
			return b1(c.Or(a, b))
		}
	}
	unsup("binary %s on %s", op, x.T)
	return Val{}, nil
}

func isPow2(n *big.Int) bool {
	return n.Sign() > 0 && new(big.Int).And(n, new(big.Int).Sub(n, big.NewInt(1))).Sign() == 0
}

func maskBits(t *Term) *big.Int {
	if t.num == nil || t.num.Sign() <= 0 {
		return nil
	}
	n := new(big.Int).Add(t.num, big.NewInt(1))
	if isPow2(n) {
		return n
	}
	return nil
}

func (e *Eng) opaqueInt(st *State, n string, t types.Type, args ...*Term) *Term {
	names := map[string]string{"&": "bvand", "|": "bvor", "^": "bvxor", "&^": "bvandnot"}
	if x, ok := names[n]; ok {
		n = x
	}
	r := e.c.App("op!"+n, SInt, args...)
	lo, hi := intRange(t)
	e.add(st, e.c.Le(e.c.Big(lo), r))
	e.add(st, e.c.Le(r, e.c.Big(hi)))
	return r
}

// equal compares two values of the same type.
func (e *Eng) equal(st *State, x, y Val) *Term {
	c := e.c
	if x.T != nil {
		if _, ok := under(x.T).(*types.Slice); ok { // comparison with nil
			if y.T != nil && len(y.X) == 4 && y.X[0].num != nil && y.X[0].num.Sign() == 0 {
				return c.Eq(x.X[0], y.X[0])
			}
			if len(x.X) == 4 && x.X[0].num != nil && x.X[0].num.Sign() == 0 {
				return c.Eq(x.X[0], y.X[0])
			}
		}
	}
	if len(x.X) != len(y.X) {
		// interface compared with concrete value
		if len(x.X) == 1 && x.X[0].Srt == SIface {
			return c.Eq(x.X[0], e.mkIface(st, y))
		}
		if len(y.X) == 1 && y.X[0].Srt == SIface {
			return c.Eq(y.X[0], e.mkIface(st, x))
		}
		unsup("comparison %s %s", x.T, y.T)
	}
	var cs []*Term
	for i := range x.X {
		a, b := x.X[i], y.X[i]
		if a.Srt != b.Srt {
			if a.Srt == SIface {
				return c.Eq(a, e.mkIface(st, y))
			}
			if b.Srt == SIface {
				return c.Eq(b, e.mkIface(st, x))
			}
		}
		cs = append(cs, c.Eq(a, b))
	}
	return c.And(cs...)
}

func (e *Eng) convert(st *State, v Val, t types.Type) Val {
	c := e.c
	from, to := under(v.T), under(t)
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return Val{T: t, X: []*Term{e.inRange(st, v.X[0], t)}}
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return Val{T: t, X: v.X}
	case tok && tb.Info()&types.IsFloat != 0:
		if v.X[0].Srt == SFlt {
			return Val{T: t, X: v.X}
		}
		if v.X[0].num != nil {
			return Val{T: t, X: []*Term{e.fltConst(v.X[0].num.String())}}
		}
		r := c.App("i2f", SFlt, v.X[0])
		if st != nil && !r.bound {
			e.add(st, c.Iff(c.Lt(v.X[0], c.Int(0)), e.fltNeg(r)))
		}
		return Val{T: t, X: []*Term{r}}
	case tok && tb.Info()&types.IsInteger != 0 && v.X[0].Srt == SFlt:
		r := c.App("f2i", SInt, v.X[0])
		return Val{T: t, X: []*Term{e.inRange(st, r, t)}}
	case tok && tb.Info()&types.IsString != 0:
		if sl, ok := from.(*types.Slice); ok && typeKey(sl.Elem().Underlying()) == "uint8" || ok && typeKey(sl.Elem().Underlying()) == "byte" {
			return Val{T: t, X: []*Term{e.strOf(st, st.heap, v)}}
		}
		return Val{T: t, X: []*Term{c.App("runestr", SStr, v.X[0])}}
	case fok && fb.Info()&types.IsString != 0:
		if sl, ok := to.(*types.Slice); ok {
			return e.bytesOf(st, v.X[0], t, sl.Elem())
		}
	}
	if len(leaves(t)) == len(v.X) {
		return Val{T: t, X: v.X, A: v.A, Fn: v.Fn}
	}
	unsup("conversion %s to %s", v.T, t)
	return Val{}
}

// strOf is the string with the bytes of slice v.
func (e *Eng) strOf(st *State, m map[string]*Term, v Val) *Term {
	c := e.c
	el := under(v.T).(*types.Slice).Elem()
	k := "E:" + typeKey(el)
	in := c.Select(e.hget(m, k, e.heapSort(k, SInt)), v.X[0])
	s := c.App("strof", SStr, in, v.X[1], v.X[2])
	if !e.strExt {
		// equal bytes make equal strings
		e.strExt = true
		as := ArrOf(SInt, SInt)
		a, b := c.Var("xa", as), c.Var("xb", as)
		p, q, n, m := c.Var("xp", SInt), c.Var("xq", SInt), c.Var("xn", SInt), c.Var("xm", SInt)
		i := c.Var("xi", SInt)
		f, g := c.App("strof", SStr, a, p, n), c.App("strof", SStr, b, q, m)
		all := c.Forall([]*Term{i}, c.Imp(c.And(c.Le(p, i), c.Lt(i, c.Add(p, n))), c.Eq(c.Select(a, i), c.Select(b, c.Add(c.Sub(i, p), q)))), []*Term{c.Select(a, i)})
		c.Axiom(c.Forall([]*Term{a, b, p, q, n, m}, c.Imp(c.And(c.Eq(n, m), all), c.Eq(f, g)), []*Term{f, g}))
	}
	if st != nil && !s.bound {
		e.add(st, c.Eq(e.c.App("slen", SInt, s), v.X[2]))
		i := c.Var("i", SInt)
		sb := c.App("sbyte", SInt, s, i)
		e.add(st, c.Forall([]*Term{i}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, v.X[2])), c.Eq(sb, c.Select(in, c.Add(v.X[1], i)))), []*Term{sb}))
	}
	return s
}

// bytesOf converts a string to a fresh byte slice.
func (e *Eng) bytesOf(st *State, s *Term, t, el types.Type) Val {
	c := e.c
	n := e.slen(st, s)
	if typeKey(el.Underlying()) != "uint8" && typeKey(el.Underlying()) != "byte" {
		return e.fresh(st, "runes", t)
	}
	if n.num == nil {
		e.add(st, c.Le(n, c.Big(maxMem)))
	}
	r := e.newRef(st)
	k := "E:" + typeKey(el)
	h := e.hget(st.heap, k, e.heapSort(k, SInt))
	// the contents are a function of the string, so that equal strings give equal contents
	in := c.App("sbytes", ArrOf(SInt, SInt), s)
	st.heap[k] = c.Store(h, r, in)
	i := c.Var("i", SInt)
	e.add(st, c.Forall([]*Term{i}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.Eq(c.Select(in, i), c.App("sbyte", SInt, s, i))), []*Term{c.Select(in, i)}))
	e.add(st, c.Eq(c.App("strof", SStr, in, c.Int(0), n), s))
	st.heap["okind"] = c.Store(e.okind(st.heap), r, c.Int(2))
	cp := c.Fresh("cap", SInt)
	e.add(st, c.Le(n, cp))
	e.add(st, c.Le(cp, c.Big(maxMem)))
	return Val{T: t, X: []*Term{r, c.Int(0), n, cp}}
}

// ---- maps ----

func mapKey(mt *types.Map) string { return typeKey(types.NewMap(mt.Key(), mt.Elem())) }

func (e *Eng) mapDomH(m map[string]*Term, mt *types.Map) *Term {
	ks := leaves(mt.Key())
	if len(ks) != 1 {
		unsup("map key %s", mt.Key())
	}
	return e.hget(m, "MD:"+mapKey(mt), ArrOf(SInt, ArrOf(ks[0].srt, SBool)))
}
func (e *Eng) mapDom(m map[string]*Term, mt *types.Map, ref *Term) *Term {
	return e.c.Select(e.mapDomH(m, mt), ref)
}
func (e *Eng) mapLenH(m map[string]*Term, mt *types.Map) *Term {
	return e.hget(m, "ML:"+mapKey(mt), ArrOf(SInt, SInt))
}

// mapLen returns len(m) with its defining facts.
func (e *Eng) mapLen(st *State, m map[string]*Term, mt *types.Map, ref *Term) *Term {
	c := e.c
	ln := c.Select(e.mapLenH(m, mt), ref)
	dom := e.mapDom(m, mt, ref)
	if st != nil && !ln.bound {
		e.add(st, c.Le(c.Int(0), ln))
		e.add(st, c.Le(ln, c.Big(maxMem)))
		ks := leaves(mt.Key())[0].srt
		k := c.Var("k", ks)
		e.add(st, c.Forall([]*Term{k}, c.Imp(c.Select(dom, k), c.Le(c.Int(1), ln)), []*Term{c.Select(dom, k)}))
		w := c.App("mapwit!"+mapKey(mt), ks, dom)
		e.add(st, c.Imp(c.Le(c.Int(1), ln), c.Select(dom, w)))
	}
	if ref.num != nil && ref.num.Sign() != 0 {
		return ln
	}
	return c.Ite(c.Eq(ref, c.Int(0)), c.Int(0), ln)
}

// mapHas is the lookup predicate; nil maps are empty.
func (e *Eng) mapHas(m map[string]*Term, mt *types.Map, ref, key *Term) *Term {
	in := e.c.Select(e.mapDom(m, mt, ref), key)
	if ref.num != nil && ref.num.Sign() != 0 {
		return in
	}
	return e.c.And(e.c.Ne(ref, e.c.Int(0)), in)
}

func (e *Eng) mapGetRaw(m map[string]*Term, mt *types.Map, ref, key *Term) Val {
	v := Val{T: mt.Elem()}
	ks := leaves(mt.Key())[0].srt
	e.mapBase(mt)
	for _, l := range leaves(mt.Elem()) {
		h := e.hget(m, "MV:"+mapKey(mt)+l.suf, ArrOf(SInt, ArrOf(ks, l.srt)))
		v.X = append(v.X, e.c.Select(e.c.Select(h, ref), key))
	}
	return v
}

// mapGetArr is the array of all values of a map with scalar elements.
func (e *Eng) mapGetArr(m map[string]*Term, mt *types.Map, ref *Term) *Term {
	ls := leaves(mt.Elem())
	if len(ls) != 1 {
		unsup("values of %s", mt)
	}
	return e.c.Select(e.hget(m, "MV:"+mapKey(mt)+ls[0].suf, ArrOf(SInt, ArrOf(leaves(mt.Key())[0].srt, ls[0].srt))), ref)
}

// mapBase states once the type facts of the slices held by the maps that exist
// at entry.
func (e *Eng) mapBase(mt *types.Map) {
	c := e.c
	if e.mapTypes == nil {
		e.mapTypes = map[string]*types.Map{}
	}
	e.mapTypes[mapKey(mt)] = mt
	if _, ok := under(mt.Elem()).(*types.Slice); !ok || c.known["mapbase!"+mapKey(mt)] {
		return
	}
	c.known["mapbase!"+mapKey(mt)] = true
	for _, f := range e.mapFacts(nil, mt, nil) {
		c.Axiom(f)
	}
}

// mapFacts are the type facts of the slice values of all maps of a type in
// heap m (nil: the heap at entry).
func (e *Eng) mapFacts(st *State, mt *types.Map, m map[string]*Term, at1 ...*Term) []*Term {
	c := e.c
	ks := leaves(mt.Key())[0].srt
	if _, ok := under(mt.Elem()).(*types.Slice); !ok {
		return nil
	}
	r, k := e.qvar("mr", SInt, 93), e.qvar("mk", ks, 93)
	q := []*Term{r, k}
	if len(at1) > 0 {
		r, q = at1[0], []*Term{k}
	}
	at := func(suf string) *Term {
		return c.Select(c.Select(e.hget(m, "MV:"+mapKey(mt)+suf, ArrOf(SInt, ArrOf(ks, SInt))), r), k)
	}
	a, o, l, cp := at("@a"), at("@o"), at("@l"), at("@c")
	var ra *Term
	if st == nil {
		ra = c.Imp(c.Le(c.Int(0), r), c.Le(c.Int(0), a))
	} else {
		ra = e.refRange(st, a)
	}
	return []*Term{
		c.Forall(q, ra, []*Term{a}),
		c.Forall(q, c.And(c.Le(c.Int(0), o), c.Le(o, c.Big(maxMem))), []*Term{o}),
		c.Forall(q, c.And(c.Le(c.Int(0), l), c.Le(l, cp), c.Le(cp, c.Big(maxMem)), c.Imp(c.Eq(a, c.Int(0)), c.Eq(cp, c.Int(0)))), []*Term{l}),
		c.Forall(q, c.And(c.Le(c.Int(0), cp), c.Le(cp, c.Big(maxMem))), []*Term{cp}),
	}
}

func (e *Eng) mapSet(st *State, mt *types.Map, ref *Term, key, val Val) {
	c := e.c
	ks := leaves(mt.Key())[0].srt
	k := key.X[0]
	if ks == SIface && k.Srt != SIface {
		k = e.mkIface(st, key)
	}
	e.mapBase(mt)
	domH := e.mapDomH(st.heap, mt)
	dom := c.Select(domH, ref)
	lenH := e.mapLenH(st.heap, mt)
	ln := e.mapLen(st, st.heap, mt, ref)
	had := c.Select(dom, k)
	st.heap["MD:"+mapKey(mt)] = c.Store(domH, ref, c.Store(dom, k, c.T))
	st.heap["ML:"+mapKey(mt)] = c.Store(lenH, ref, c.Add(ln, c.Ite(had, c.Int(0), c.Int(1))))
	e.reify(st, &val)
	for i, l := range leaves(mt.Elem()) {
		key := "MV:" + mapKey(mt) + l.suf
		h := e.hget(st.heap, key, ArrOf(SInt, ArrOf(ks, l.srt)))
		x := val.X
		var t *Term
		if l.srt == SIface && x[i].Srt != SIface {
			t = e.mkIface(st, val)
		} else {
			t = x[i]
		}
		st.heap[key] = c.Store(h, ref, c.Store(c.Select(h, ref), k, t))
	}
}

func (e *Eng) mapDelete(st *State, mt *types.Map, ref *Term, key Val) {
	c := e.c
	k := key.X[0]
	domH := e.mapDomH(st.heap, mt)
	dom := c.Select(domH, ref)
	lenH := e.mapLenH(st.heap, mt)
	ln := e.mapLen(st, st.heap, mt, ref)
	had := c.Select(dom, k)
	// deleting from a nil map does nothing; its domain is irrelevant
	st.heap["MD:"+mapKey(mt)] = c.Store(domH, ref, c.Store(dom, k, c.F))
	nl := c.Fresh("maplen", SInt)
	e.add(st, c.Eq(nl, c.Sub(ln, c.Ite(had, c.Int(1), c.Int(0)))))
	st.heap["ML:"+mapKey(mt)] = c.Store(lenH, ref, nl)
	e.mapLen(st, st.heap, mt, ref)
}

func (e *Eng) makeMap(st *State, t types.Type) *Term {
	c := e.c
	mt := under(t).(*types.Map)
	r := e.newRef(st)
	ks := leaves(mt.Key())[0].srt
	st.heap["MD:"+mapKey(mt)] = c.Store(e.mapDomH(st.heap, mt), r, c.ConstArr(ArrOf(ks, SBool), c.F))
	st.heap["ML:"+mapKey(mt)] = c.Store(e.mapLenH(st.heap, mt), r, c.Int(0))
	return r
}

func (e *Eng) lookup(st *State, fr *Frame, in *ssa.Lookup) []Outcome {
	c := e.c
	m := e.val(st, fr, in.X)
	k := e.val(st, fr, in.Index)
	mt, ok := under(m.T).(*types.Map)
	if !ok { // string index
		i := k.X[0]
		pan := e.must(st, c.And(c.Le(c.Int(0), i), c.Lt(i, e.slen(st, m.X[0]))), "index out of range", in.Pos())
		fr.regs[in] = Val{T: in.Type(), X: []*Term{c.App("sbyte", SInt, m.X[0], i)}}
		return pan
	}
	kt := k.X[0]
	if leaves(mt.Key())[0].srt == SIface && kt.Srt != SIface {
		kt = e.mkIface(st, k)
	}
	has := e.mapHas(st.heap, mt, m.X[0], kt)
	raw := e.mapGetRaw(st.heap, mt, m.X[0], kt)
	z := e.zero(mt.Elem())
	v := Val{T: mt.Elem()}
	for i := range raw.X {
		v.X = append(v.X, c.Ite(has, raw.X[i], z.X[i]))
	}
	// name the result to keep terms small
	for i := range v.X {
		if v.X[i].Op == "ite" {
			f := c.Fresh("lk", v.X[i].Srt)
			e.add(st, c.Imp(has, c.Eq(f, raw.X[i])))
			e.add(st, c.Imp(c.Not(has), c.Eq(f, z.X[i])))
			v.X[i] = f
		}
	}
	e.typeFacts(st, v)
	if in.CommaOk {
		fr.regs[in] = Val{T: in.Type(), Tup: []Val{v, {T: types.Typ[types.Bool], X: []*Term{has}}}}
	} else {
		fr.regs[in] = v
	}
	return nil
}

// next advances a map iteration. The choice between "another key" and "done"
// is made by a fresh boolean, so that the following If forks.
func (e *Eng) next(st *State, fr *Frame, in *ssa.Next) []Outcome {
	c := e.c
	tup := in.Type().(*types.Tuple)
	if in.IsString {
		v := e.fresh(st, "next", tup)
		fr.regs[in] = v
		return nil
	}
	rv := e.val(st, fr, in.Iter)
	it := st.iters[rv.It]
	ok := c.Fresh("more", SBool)
	kv := c.Fresh("key", it.ksrt)
	key := Val{T: it.mt.Key(), X: []*Term{kv}}
	e.typeFacts(st, key)
	cur := e.mapDom(st.heap, it.mt, it.m)
	nonnil := c.Ne(it.m, c.Int(0))
	e.add(st, c.Imp(ok, c.And(nonnil, c.Select(cur, kv), c.Not(c.Select(it.vis, kv)))))
	kb := c.Var("k", it.ksrt)
	// at the end every key present throughout the loop has been visited
	e.add(st, c.Imp(c.And(c.Not(ok), nonnil), c.Forall([]*Term{kb}, c.Imp(c.And(c.Select(it.dom, kb), c.Select(cur, kb)), c.Select(it.vis, kb)), []*Term{c.Select(it.vis, kb)}, []*Term{c.Select(it.dom, kb)})))
	it.vis = c.Ite(ok, c.Store(it.vis, kv, c.T), it.vis)
	if p, isP := under(it.mt.Key()).(*types.Pointer); isP {
		e.noteElem(st, kv, p.Elem())
	}
	val := e.mapGetRaw(st.heap, it.mt, it.m, kv)
	e.typeFacts(st, val)
	fr.regs[in] = Val{T: tup, Tup: []Val{{T: types.Typ[types.Bool], X: []*Term{ok}}, key, val}}
	return nil
}

// ---- slices ----

func (e *Eng) sliceOp(st *State, fr *Frame, in *ssa.Slice) []Outcome {
	c := e.c
	x := e.val(st, fr, in.X)
	var lo, hi, mx *Term
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.val(st, fr, v).X[0]
	}
	lo, hi, mx = get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	switch u := under(x.T).(type) {
	case *types.Basic: // string
		n := e.slen(st, x.X[0])
		if hi == nil {
			hi = n
		}
		pan := e.must(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), "slice bounds out of range", in.Pos())
		fr.regs[in] = Val{T: in.Type(), X: []*Term{e.substr(st, x.X[0], lo, hi)}}
		return pan
	case *types.Slice:
		ln, cp := x.X[2], x.X[3]
		if hi == nil {
			hi = ln
		}
		if mx == nil {
			mx = cp
		}
		pan := e.must(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, cp)), "slice bounds out of range", in.Pos())
		fr.regs[in] = Val{T: in.Type(), X: []*Term{x.X[0], c.Add(x.X[1], lo), c.Sub(hi, lo), c.Sub(mx, lo)}}
		return pan
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		pan := e.must(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)), "slice bounds out of range", in.Pos())
		fr.regs[in] = Val{T: in.Type(), X: []*Term{x.X[0], lo, c.Sub(hi, lo), c.Sub(mx, lo)}}
		return pan
	}
	unsup("slice of %s", x.T)
	return nil
}

func (e *Eng) substr(st *State, s, lo, hi *Term) *Term {
	c := e.c
	if lv, ok := c.LitVal(s); ok && lo.num != nil && hi.num != nil {
		return c.Lit(lv[lo.num.Int64():hi.num.Int64()])
	}
	if lo.num != nil && lo.num.Sign() == 0 && hi == e.slen(st, s) {
		return s
	}
	r := c.App("substr", SStr, s, lo, hi)
	e.add(st, c.Eq(c.App("slen", SInt, r), c.Sub(hi, lo)))
	i := c.Var("i", SInt)
	sb := c.App("sbyte", SInt, r, i)
	e.add(st, c.Forall([]*Term{i}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, c.Sub(hi, lo))), c.Eq(sb, c.App("sbyte", SInt, s, c.Add(lo, i)))), []*Term{sb}))
	return r
}

func (e *Eng) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) []Outcome {
	c := e.c
	x := e.val(st, fr, in.X)
	t := in.AssertedType
	var ok *Term
	var v, z Val
	if types.IsInterface(t) {
		ok = e.implOf(st, c.ITyp(x.X[0]), t)
		v = Val{T: t, X: x.X}
		z = e.zero(t)
	} else {
		ok = c.Eq(c.ITyp(x.X[0]), e.tag(t))
		v = e.unbox(st, x.X[0], t)
		z = e.zero(t)
	}
	e.implFacts(st)
	if in.CommaOk {
		r := Val{T: t, A: v.A, Fn: v.Fn}
		for i := range v.X {
			y := c.Ite(ok, v.X[i], z.X[i])
			if y.Op == "ite" {
				f := c.Fresh("ta", y.Srt)
				e.add(st, c.Imp(ok, c.Eq(f, v.X[i])))
				e.add(st, c.Imp(c.Not(ok), c.Eq(f, z.X[i])))
				y = f
			}
			r.X = append(r.X, y)
		}
		fr.regs[in] = Val{T: in.Type(), Tup: []Val{r, {T: types.Typ[types.Bool], X: []*Term{ok}}}}
		return nil
	}
	pan := e.must(st, ok, "interface conversion", in.Pos())
	fr.regs[in] = v
	return pan
}

func (e *Eng) implOf(st *State, tag *Term, t types.Type) *Term {
	it := under(t).(*types.Interface)
	if it.NumMethods() == 0 {
		return e.c.Ne(tag, e.c.Int(0))
	}
	return e.c.And(e.c.Ne(tag, e.c.Int(0)), e.impl(st, tag, t))
}

// stdModel: a library type described by ghost fields only.
func stdModel(n *types.Named) bool {
	p := n.Obj().Pkg()
	return p != nil && !strings.Contains(p.Path(), ".")
}
