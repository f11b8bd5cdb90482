package main

import (
	"fmt"
	"go/token"
	"go/types"
	"net/textproto"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var buildMu sync.Mutex

func ensureBuilt(fn *ssa.Function) {
	buildMu.Lock()
	defer buildMu.Unlock()
	if len(fn.Blocks) == 0 && fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

func (e *Eng) noteFuncVar(t *Term, key string) {
	if e.funcVar == nil {
		e.funcVar = map[*Term]string{}
	}
	e.funcVar[t] = key
}

func (e *Eng) call(st *State, fr *Frame, cc *ssa.CallCommon, in ssa.Instruction) []Outcome {
	var fv Val
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fv = e.val(st, fr, cc.Value)
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, e.val(st, fr, a))
	}
	return e.callWith(st, fr, cc, fv, args, in)
}

func (e *Eng) runtimePanic(st *State, why string, pos token.Pos) Outcome {
	pv := Val{T: types.NewInterfaceType(nil, nil), X: []*Term{e.c.MkI(e.c.Const("tag!runtime.Error", SInt), e.c.Fresh("rterr", SInt))}}
	e.add(st, e.c.Lt(e.c.Int(0), e.c.ITyp(pv.X[0])))
	return Outcome{st: st, panic: true, pv: pv, internal: true, why: why + " at " + e.pos(pos)}
}

func (e *Eng) callWith(st *State, fr *Frame, cc *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction) []Outcome {
	c := e.c
	pos := in.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return e.builtin(st, b, args, cc, pos)
	}
	if cc.IsInvoke() {
		x := fv.X[0]
		pan := e.must(st, c.Ne(c.ITyp(x), c.Int(0)), "nil interface method call", pos)
		var outs []Outcome
		outs = append(outs, pan...)
		if len(pan) > 0 && e.dead(st) {
			return outs
		}
		tg := c.ITyp(x)
		if tg.num == nil {
			// a tag known from the path condition
			for id, t := range e.tagT {
				if types.IsInterface(t) {
					continue
				}
				if st.fset[c.Eq(tg, c.Int(int64(id)))] {
					tg = c.Int(int64(id))
					break
				}
			}
		}
		if tg.num != nil {
			if t, ok := e.tagT[int(tg.num.Int64())]; ok && e.dispatchable(t) {
				fn := e.P.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
				if fn != nil {
					recv := e.unbox(st, c.MkI(tg, c.IVal(x)), t)
					return append(outs, e.callFn(st, fr, fn, append([]Val{recv}, args...), nil, pos)...)
				}
			}
		}
		key := objKey(cc.Method)
		con := e.S.Funcs[key]
		if more := e.moreSpecific(st, x, cc.Method.Name()); more != nil {
			con = more
		}
		if con == nil {
			con = e.methodContract(cc.Method)
		}
		all := append([]Val{fv}, args...)
		if con != nil {
			return append(outs, e.callContract(st, con, all, cc.Signature(), nil, pos)...)
		}
		return append(outs, e.callUnknown(st, key, all, cc.Signature(), nil, pos)...)
	}
	if fn := cc.StaticCallee(); fn != nil {
		if e.initPkg != nil && fn.Name() == "init" && fn.Object() == nil && fn.Signature.Recv() == nil && fn.Pkg != e.fn.Pkg {
			return []Outcome{{st: st}} // other packages are initialised already
		}
	}
	if fn := cc.StaticCallee(); fn != nil && fv.Fn == nil {
		return e.callFn(st, fr, fn, args, nil, pos)
	}
	if fv.Fn != nil {
		return e.callFn(st, fr, fv.Fn.fn, args, fv.Fn.free, pos)
	}
	// unknown function value
	pan := e.must(st, c.Ne(fv.X[0], c.Int(0)), "call of nil function", pos)
	outs := append([]Outcome(nil), pan...)
	if len(pan) > 0 && e.dead(st) {
		return outs
	}
	key := "func " + types.TypeString(cc.Signature(), func(p *types.Package) string { return p.Name() })
	if k, ok := e.funcVar[fv.X[0]]; ok {
		key = "var " + k
	}
	if con := e.S.Funcs[key]; con != nil {
		return append(outs, e.callContract(st, con, append([]Val{fv}, args...), cc.Signature(), nil, pos)...)
	}
	return append(outs, e.callUnknown(st, key, args, cc.Signature(), nil, pos)...)
}

// moreSpecific finds the contract of method name in an interface of the
// repository that value x was converted from: passing a body.Body as an
// io.ReadCloser does not change what its Close does.
func (e *Eng) moreSpecific(st *State, x *Term, name string) *Contract {
	for _, t := range st.ifaces[x] {
		m, _, _ := types.LookupFieldOrMethod(t, false, nil, name)
		if f, ok := m.(*types.Func); ok {
			if con := e.S.Funcs[objKey(f)]; con != nil {
				return con
			}
		}
	}
	return nil
}

// wasIface records that x had static type t, an interface of the repository.
func (st *State) wasIface(x *Term, t types.Type) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return
	}
	for _, u := range st.ifaces[x] {
		if types.Identical(t, u) {
			return
		}
	}
	m := map[*Term][]types.Type{}
	for k, v := range st.ifaces {
		m[k] = v
	}
	m[x] = append(m[x][:len(m[x]):len(m[x])], t)
	st.ifaces = m
}

// dispatchable reports whether method calls on a value of known type t are
// resolved to the method itself.
func (e *Eng) dispatchable(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return strings.HasPrefix(n.Obj().Pkg().Path(), modPath) || n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "bytes" || n.Obj().Pkg().Path() == "strings"
}

// methodContract finds the contract of an interface method by name and
// signature when the interface itself has none (locally declared interfaces).
func (e *Eng) methodContract(m *types.Func) *Contract {
	var found *Contract
	for _, k := range sortedKeys(e.S.Funcs) {
		con := e.S.Funcs[k]
		if !con.Extern || !strings.HasPrefix(k, "(") || !strings.HasSuffix(k, ")."+m.Name()) {
			continue
		}
		tn := strings.TrimSuffix(strings.TrimPrefix(k, "("), ")."+m.Name())
		t := e.resolveType(tn, nil)
		if t == nil || !types.IsInterface(t) {
			continue
		}
		it := under(t).(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			x := it.Method(i)
			if x.Name() == m.Name() && types.Identical(types.NewSignatureType(nil, nil, nil, x.Signature().Params(), x.Signature().Results(), false), types.NewSignatureType(nil, nil, nil, m.Signature().Params(), m.Signature().Results(), false)) {
				if found == nil {
					found = con
				}
			}
		}
	}
	return found
}

func (e *Eng) callFn(st *State, fr *Frame, fn *ssa.Function, args []Val, free []Val, pos token.Pos) []Outcome {
	key := funcKey(fn)
	if fn.Synthetic != "" && fn.Parent() == nil && len(fn.Blocks) > 0 {
		return e.invokeBody(st, fn, args, free, false)
	}
	if fn.Synthetic != "" {
		ensureBuilt(fn)
		if len(fn.Blocks) > 0 {
			return e.invokeBody(st, fn, args, free, false)
		}
	}
	if outs, ok := e.intrinsic(st, key, fn, args, pos); ok {
		return outs
	}
	con := e.S.Funcs[key]
	if con != nil && con.Inline && con.Extern {
		ensureBuilt(fn)
		e.inlined[key] = true
		return e.invokeBody(st, fn, args, free, false)
	}
	if con != nil && !e.inline[key] {
		if con.Extern || (fn.Pkg != nil && e.fn != nil && fn.Pkg != rootPkg(e.fn)) || e.useContract(fn, con) {
			return e.callContract(st, con, args, fn.Signature, fn, pos)
		}
	}
	if inRepo(fn) {
		if len(fn.Blocks) > 0 {
			e.inlined[key] = true
			return e.invokeBody(st, fn, args, free, false)
		}
	}
	return e.callUnknown(st, key, args, fn.Signature, fn, pos)
}

func rootPkg(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg
}

// useContract: functions are called through their contracts inside their
// package, too; only if the caller cannot be verified so (what the contract
// does not say may matter to it) are they executed from source, at the second
// attempt.
func (e *Eng) useContract(fn *ssa.Function, con *Contract) bool {
	return con.Opaque || !e.cfg.inlineOwn
}

func (e *Eng) assume(s string) { e.assumed[s] = true }

// purePkgs: packages whose plain functions only compute a result (and may
// write through slices and maps passed to them).
var purePkgs = map[string]bool{"fmt": true, "errors": true, "strings": true, "strconv": true, "unicode": true, "utf8": true, "utf16": true,
	"math": true, "bits": true, "path": true, "filepath": true, "url": true, "time": true, "mime": true, "html": true, "template": true,
	"textproto": true, "http": true, "reflect": true, "runtime": true, "debug": true, "regexp": true, "bytes": true, "sort": true,
	"base64": true, "hex": true, "binary": true, "sha256": true, "sha1": true, "md5": true, "big": true, "context": true, "enumhelper": true}

// pureMeth: packages whose methods only read their receiver.
var pureMeth = map[string]bool{"time": true, "url": true, "reflect": true, "errors": true, "big": true, "context": true, "fs": true}

// impure functions of the packages above.
var impureFn = map[string]bool{"fmt.Fprint": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fscan": true, "fmt.Fscanf": true, "fmt.Sscan": true, "fmt.Sscanf": true,
	"http.Error": true, "http.SetCookie": true, "http.Redirect": true, "http.NotFound": true, "http.ServeContent": true, "http.ServeFile": true,
	"errors.As": true, "template.HTMLEscape": true, "template.JSEscape": true, "binary.Read": true, "binary.Write": true, "time.AfterFunc": true, "runtime.SetFinalizer": true, "runtime.Goexit": true}

// pureRecv: further methods that only read.
var pureRecv = map[string]bool{"(*http.Request).Context": true, "(*http.Request).Cookie": true, "(*http.Request).Cookies": true, "(*http.Request).UserAgent": true,
	"(*http.Request).Referer": true, "(*http.Request).ProtoAtLeast": true, "(*http.Request).BasicAuth": true, "(*bytes.Buffer).String": true, "(*bytes.Buffer).Cap": true,
	"(*bytes.Buffer).Available": true, "(*strings.Builder).Cap": true, "(error).Error": true, "(fmt.Stringer).String": true, "(error).Unwrap": true, "(*regexp.Regexp).MatchString": true}

func pureFunc(fn *ssa.Function, key string) bool {
	if pureRecv[key] {
		return true
	}
	if fn == nil {
		i, j := strings.Index(key, "("), strings.Index(key, ".")
		return i == 0 && j > 0 && pureMeth[strings.TrimLeft(key[1:j], "*")]
	}
	o := fn.Object()
	if o == nil || o.Pkg() == nil || impureFn[key] {
		return false
	}
	if fn.Signature.Recv() != nil {
		return pureMeth[o.Pkg().Name()]
	}
	return purePkgs[o.Pkg().Name()]
}

// callUnknown models a function without contract: it returns anything, and may
// change whatever its arguments lead to directly.  A method of an unknown
// dynamic value, or a function value, may panic as well.
func (e *Eng) callUnknown(st *State, key string, args []Val, sig *types.Signature, fn *ssa.Function, pos token.Pos) []Outcome {
	if fn != nil && fn.Object() != nil && fn.Object().Pkg() != nil && strings.HasPrefix(fn.Object().Pkg().Path(), "sync") {
		unsup("no contract for %s", key)
	}
	pure := pureFunc(fn, key)
	if pure {
		e.assume("no contract for " + key + ": it may return anything and write through the slices and maps passed to it; it does not panic and changes nothing else")
	} else {
		e.assume("no contract for " + key + ": it may return anything and change the objects passed to it; it changes nothing else")
	}
	var outs []Outcome
	for i := range args {
		e.reify(st, &args[i])
		a := args[i]
		if a.T == nil {
			continue
		}
		switch u := under(a.T).(type) {
		case *types.Slice:
			if typeKey(u.Elem()) == "interface{}" || typeKey(u.Elem()) == "any" {
				continue // variadic argument list
			}
			e.havocSlice(st, a)
		case *types.Map:
			e.havocMap(st, u, a.X[0])
		case *types.Pointer:
			if !pure {
				e.havocObject(st, u.Elem(), a.X[0])
				e.havocGhosts(st, SInt, a.X[0])
				e.havocGhosts(st, SIface, e.mkIface(st, a))
			}
		case *types.Interface:
			if pure || typeKey(a.T) == "error" {
				continue
			}
			x := a.X[0]
			e.havocGhosts(st, SIface, x)
			if tg := e.c.ITyp(x); tg.num != nil {
				if p, ok := e.tagT[int(tg.num.Int64())].(*types.Pointer); ok {
					e.havocObject(st, p.Elem(), e.c.IVal(x))
					e.havocGhosts(st, SInt, e.c.IVal(x))
				}
			}
		case *types.Signature:
			if !pure && fn != nil {
				unsup("a function value is passed to %s, which has no contract", key)
			}
		}
	}
	if fn == nil && !pure {
		ps := st.clone()
		pv := e.c.Fresh("panicval", SIface)
		e.add(ps, e.c.Lt(e.c.Int(0), e.c.ITyp(pv)))
		outs = append(outs, Outcome{st: ps, panic: true, why: "panic raised by " + key + " at " + e.pos(pos), pv: Val{T: types.NewInterfaceType(nil, nil), X: []*Term{pv}}})
	}
	return append(outs, Outcome{st: st, res: e.freshResults(st, sig, "r")})
}

// havocObject forgets the fields of an object.
func (e *Eng) havocObject(st *State, t types.Type, ref *Term) {
	if isSyncType(t) {
		return
	}
	for _, d := range st.given {
		e.prove(st, e.c.Ne(d, ref), "donated", e.defTags(), "storage that was given away is not touched")
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if ts := e.S.Types[typeKey(n)]; ts != nil {
			for _, g := range ts.Ghost {
				k := "F:" + typeKey(n) + ".$" + g.Name
				st.heap[k] = e.c.Store(e.hget(st.heap, k, ArrOf(SInt, g.Sort)), ref, e.c.Fresh("gf", g.Sort))
			}
			if stdModel(n) {
				return // described by its ghost fields only
			}
		}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if isAgg(f.Type()) {
				e.havocObject(st, f.Type(), e.embRef(t, f.Name(), ref))
				continue
			}
			e.storeField(st, t, i, ref, e.fresh(st, "mf", f.Type()))
		}
	case *types.Array:
		for _, l := range leaves(u.Elem()) {
			k := "E:" + typeKey(u.Elem()) + l.suf
			st.heap[k] = e.c.Store(e.hget(st.heap, k, e.heapSort(k, l.srt)), ref, e.c.Fresh("arrv", ArrOf(SInt, l.srt)))
		}
	default:
		e.storeKey(st, "P:"+typeKey(t), t, ref, e.fresh(st, "mf", t))
	}
}

// havocGhosts forgets what the ghost maps say about an object.
func (e *Eng) havocGhosts(st *State, key Sort, k *Term) {
	for _, g := range sortedKeys(e.S.Ghosts) {
		s := e.S.Ghosts[g]
		if !strings.HasPrefix(string(s), "(Array") {
			continue
		}
		if ks, vs := arrParts(s); ks == key {
			st.heap["$"+g] = e.c.Store(e.hget(st.heap, "$"+g, s), k, e.c.Fresh("g!"+g, vs))
		}
	}
}

func (e *Eng) freshResults(st *State, sig *types.Signature, hint string) []Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, e.fresh(st, hint, sig.Results().At(i).Type()))
	}
	return res
}

// havocSlice havocs the elements of a slice value.
func (e *Eng) havocSlice(st *State, v Val) {
	c := e.c
	el := under(v.T).(*types.Slice).Elem()
	e.wperm(st, "E:"+typeKey(el), v.X[0])
	for _, l := range leaves(el) {
		k := "E:" + typeKey(el) + l.suf
		h := e.hget(st.heap, k, e.heapSort(k, l.srt))
		in := c.Select(h, v.X[0])
		if v.X[2] == c.Int(0) {
			continue
		}
		nw := c.Fresh("el", ArrOf(SInt, l.srt))
		j := e.qvar("hj", SInt, 92)
		body := c.Or(c.And(c.Le(v.X[1], j), c.Lt(j, c.Add(v.X[1], v.X[2]))), c.Eq(c.Select(nw, j), c.Select(in, j)))
		e.add(st, c.Forall([]*Term{j}, body, []*Term{c.Select(nw, j)}, []*Term{c.Select(in, j)}))
		if l.kind == "int" {
			lo, hi := intRange(l.T)
			e.add(st, c.Forall([]*Term{j}, c.And(c.Le(c.Big(lo), c.Select(nw, j)), c.Le(c.Select(nw, j), c.Big(hi))), []*Term{c.Select(nw, j)}))
		}
		st.heap[k] = c.Store(h, v.X[0], nw)
	}
}

func (e *Eng) havocMap(st *State, mt *types.Map, ref *Term) {
	c := e.c
	ks := leaves(mt.Key())[0].srt
	st.heap["MD:"+mapKey(mt)] = c.Store(e.mapDomH(st.heap, mt), ref, c.Fresh("dom", ArrOf(ks, SBool)))
	st.heap["ML:"+mapKey(mt)] = c.Store(e.mapLenH(st.heap, mt), ref, c.Fresh("mlen", SInt))
	for _, l := range leaves(mt.Elem()) {
		key := "MV:" + mapKey(mt) + l.suf
		h := e.hget(st.heap, key, ArrOf(SInt, ArrOf(ks, l.srt)))
		st.heap[key] = c.Store(h, ref, c.Fresh("mv", ArrOf(ks, l.srt)))
	}
	e.addMapFacts(st, mt)
}

// addMapFacts assumes the type facts of the map values in the current heap.
func (e *Eng) addMapFacts(st *State, mt *types.Map) {
	e.mapBase(mt)
	for _, f := range e.mapFacts(st, mt, st.heap) {
		e.add(st, f)
	}
}

// ---- contracts at call sites ----

func (e *Eng) conEnv(st *State, con *Contract, args []Val, fn *ssa.Function) *Env {
	n := &Env{vars: map[string]Val{}, heap: st.heap, old: st.heap, lets: con.Lets}
	for i, p := range con.Params {
		if i < len(args) {
			n.vars[p] = args[i]
		}
	}
	if fn != nil && fn.Pkg != nil {
		n.pkg = fn.Pkg.Pkg
	}
	return n
}

func (e *Eng) callContract(st *State, con *Contract, args []Val, sig *types.Signature, fn *ssa.Function, pos token.Pos) []Outcome {
	c := e.c
	e.calls[con.Key]++
	if len(con.Params) != len(args) {
		unsup("contract %s has %d parameters, call has %d", con.Key, len(con.Params), len(args))
	}
	for i := range args {
		e.reify(st, &args[i])
	}
	n := e.conEnv(st, con, args, fn)
	site := fmt.Sprintf("%s at %s", con.Key, e.pos(pos))
	if fn != nil && !con.Extern && !con.Nilable && fn.Signature.Recv() != nil && len(args) > 0 && e.ownsState(fn.Signature.Recv().Type()) {
		e.prove(st, c.Ne(args[0].X[0], c.Int(0)), "call:"+con.Key+":receiver", e.defTags(), "the receiver is not nil in the call of "+site)
	}
	for _, r := range con.Requires {
		tags := r.Tags
		if len(tags) == 0 {
			tags = e.defTags()
		}
		e.prove(st, e.evalB(st, n, r.E), "call:"+con.Key+":"+r.Label, tags, "precondition "+r.Src+" of "+site)
	}
	for _, d := range con.Donates {
		e.donate(st, n.vars[d], site)
	}
	for i, p := range con.Params {
		if isIn(con.Immut, p) && !isIn(con.Donates, p) && byteSlice(args[i].T) {
			e.donate(st, args[i], site)
		}
	}
	pre := make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		pre[k] = v
	}
	alive := e.aud != nil && e.mute == 0 && !e.dead(st)
	var outs []Outcome
	// internal panics of a repository function called through its contract
	for _, p := range con.Panics {
		cond := e.evalB(st, n, p.E)
		if e.feasible(st, cond) {
			ps := st.clone()
			e.add(ps, cond)
			pn := e.conEnv(ps, con, args, fn)
			pn.old = pre
			e.havocTargets(ps, con, pn)
			pv := c.Fresh("panicval", SIface)
			e.add(ps, c.Lt(c.Int(0), c.ITyp(pv)))
			pn.heap = ps.heap
			pn.vars["panic"] = Val{T: types.NewInterfaceType(nil, nil), X: []*Term{pv}}
			for _, x := range append(append(append([]*Clause(nil), con.PanicEns...), con.AbortEns...), con.PanLogs...) {
				e.add(ps, e.evalB(ps, pn, x.E))
			}
			outs = append(outs, Outcome{st: ps, panic: true, internal: true, why: "panic in " + site, pv: Val{T: types.NewInterfaceType(nil, nil), X: []*Term{pv}}})
		}
		if p.Kind == "panics" {
			e.add(st, c.Not(cond))
		}
		if e.dead(st) {
			if alive {
				e.audCall(con.Key, e.pos(pos), len(outs) > 0, true)
			}
			return outs
		}
	}
	if con.MayPanic || (!con.Extern && !con.NoPanic) {
		ps := st.clone()
		pn := e.conEnv(ps, con, args, fn)
		pn.old = pre
		e.havocTargets(ps, con, pn)
		pv := c.Fresh("panicval", SIface)
		e.add(ps, c.Lt(c.Int(0), c.ITyp(pv)))
		pn.heap = ps.heap
		pn.vars["panic"] = Val{T: types.NewInterfaceType(nil, nil), X: []*Term{pv}}
		for _, x := range append(append([]*Clause(nil), con.PanicEns...), con.PanLogs...) {
			e.add(ps, e.evalB(ps, pn, x.E))
		}
		outs = append(outs, Outcome{st: ps, panic: true, internal: false, why: "panic raised by " + site, pv: Val{T: types.NewInterfaceType(nil, nil), X: []*Term{pv}}})
	}
	n.old = pre
	first := c.maxID()
	e.havocTargets(st, con, n)
	res := e.contractResults(st, con, sig)
	n = e.conEnv(st, con, args, fn)
	n.old = pre
	bindResults(n, con, res)
	for _, a := range con.Allocs {
		n.vars[a] = gv(e.newRef(st))
	}
	for _, x := range con.Ensures {
		t := e.evalB(st, n, x.E)
		e.add(st, t)
		e.define(st, t, first, res)
	}
	for _, x := range append(append([]*Clause(nil), con.Assumes...), con.Logs...) {
		e.add(st, e.evalB(st, n, x.E))
	}
	if alive {
		e.audCall(con.Key, e.pos(pos), false, e.audDead(st))
	}
	return append(outs, Outcome{st: st, res: res})
}

// define replaces a string that a call has just chosen (a term created after
// first, in the heap or returned) by what the contract says it equals, so that
// concatenations keep their normal form. The equation itself stays assumed.
func (e *Eng) define(st *State, eq *Term, first int, res []Val) {
	if eq.Op == "and" {
		for _, x := range eq.Args {
			e.define(st, x, first, res)
		}
		return
	}
	if eq.Op != "=" || eq.Args[0].Srt != SStr {
		return
	}
	for i := 0; i < 2; i++ {
		x, t := eq.Args[i], eq.Args[1-i]
		for _, r := range res {
			if len(x.Args) == 0 && x.id >= first && len(r.X) == 1 && r.X[0] == x && t != x {
				r.X[0] = t
				return
			}
		}
	}
	for i := 0; i < 2; i++ {
		x, t := eq.Args[i], eq.Args[1-i]
		if len(x.Args) > 0 || !strings.HasPrefix(x.Op, "gf!") || x.id < first || t == x {
			continue
		}
		for _, k := range sortedKeys(st.heap) {
			if h := st.heap[k]; h.Op == "store" && h.Args[2] == x {
				st.heap[k] = e.c.Store(h.Args[0], h.Args[1], t)
				return
			}
		}
	}
}

func bindResults(n *Env, con *Contract, res []Val) {
	for i, r := range res {
		if i < len(con.Results) {
			n.vars[con.Results[i]] = r
		}
	}
	if len(res) == 1 {
		if _, ok := n.vars["result"]; !ok {
			n.vars["result"] = res[0]
		}
	}
}

func (e *Eng) contractResults(st *State, con *Contract, sig *types.Signature) []Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := e.fresh(st, "r", t)
		if i < len(con.Results) && con.Fresh[con.Results[i]] {
			switch u := under(t).(type) {
			case *types.Pointer:
				if isAgg(u.Elem()) {
					v.X[0] = e.newRef(st)
				} else {
					v.X[0] = e.newRef(st)
				}
			case *types.Map:
				v.X[0] = e.newRef(st)
				e.mapLen(st, st.heap, u, v.X[0])
			case *types.Slice:
				v.X[0] = e.newRef(st)
				if typeKey(u.Elem()) == "byte" || typeKey(u.Elem()) == "uint8" {
					kind := int64(2)
					if con.Owned[con.Results[i]] {
						kind = 3
					}
					st.heap["okind"] = e.c.Store(e.okind(st.heap), v.X[0], e.c.Int(kind))
				}
			case *types.Interface:
				v.X[0] = e.c.MkI(e.c.Fresh("ftag", SInt), e.newRef(st))
				e.add(st, e.c.Lt(e.c.Int(0), e.c.ITyp(v.X[0])))
				e.ifaceFacts(st, v.X[0], t)
			}
		}
		res = append(res, v)
	}
	return res
}

// havocTargets havocs what a contract says may be modified.
func (e *Eng) havocTargets(st *State, con *Contract, n *Env) {
	for _, m := range con.Modifies {
		e.havocTarget(st, n, m)
	}
}

func (e *Eng) havocTarget(st *State, n *Env, m *Expr) {
	c := e.c
	pn := *n
	pn.heap = n.old
	switch m.K {
	case "id":
		if s, ok := e.S.Ghosts[m.S]; ok {
			st.heap["$"+m.S] = c.Fresh("g!"+m.S, s)
			return
		}
	case "index":
		if m.A[0].K == "id" {
			if s, ok := e.S.Ghosts[m.A[0].S]; ok {
				k := e.eval(st, &pn, m.A[1])
				ks, vs := arrParts(s)
				kt := k.X[0]
				if ks == SIface && kt.Srt != SIface {
					kt = e.mkIface(st, k)
				}
				cur := e.hget(st.heap, "$"+m.A[0].S, s)
				f := c.Fresh("g!"+m.A[0].S, vs)
				st.heap["$"+m.A[0].S] = c.Store(cur, kt, f)
				return
			}
		}
		v := e.eval(st, &pn, m.A[0])
		if mt, ok := under2(v.T).(*types.Map); ok {
			k := e.eval(st, &pn, m.A[1])
			nv := e.fresh(st, "mv", mt.Elem())
			e.mapSet(st, mt, v.X[0], k, nv)
			return
		}
	case "whole":
		v := e.eval(st, &pn, m.A[0])
		switch u := under2(v.T).(type) {
		case *types.Slice:
			e.havocSlice(st, v)
			return
		case *types.Map:
			e.havocMap(st, u, v.X[0])
			return
		}
	case "slice":
		v := e.eval(st, &pn, m)
		e.havocSlice(st, v)
		return
	case "field":
		b := e.eval(st, &pn, m.A[0])
		p, ok := under2(b.T).(*types.Pointer)
		if ok {
			if nm, ok := types.Unalias(p.Elem()).(*types.Named); ok {
				if ts := e.S.Types[typeKey(nm)]; ts != nil {
					for _, g := range ts.Ghost {
						if g.Name == m.S {
							k := "F:" + typeKey(nm) + ".$" + g.Name
							st.heap[k] = c.Store(e.hget(st.heap, k, ArrOf(SInt, g.Sort)), b.X[0], c.Fresh("gf", g.Sort))
							return
						}
					}
				}
			}
			s, ok := under(p.Elem()).(*types.Struct)
			if ok {
				idx := fieldPath(s, m.S)
				ct := p.Elem()
				ref := b.X[0]
				for k, i := range idx {
					f := under(ct).(*types.Struct).Field(i)
					if k == len(idx)-1 {
						e.storeField(st, ct, i, ref, e.fresh(st, "mf", f.Type()))
						return
					}
					ref = e.embRef(ct, f.Name(), ref)
					ct = f.Type()
				}
			}
		}
	}
	switch m.K {
	case "call":
		if m.S == "storage" && len(m.A) == 1 { // the byte storage owned by an object
			o := e.eval(st, &pn, m.A[0])
			for _, d := range st.given {
				e.prove(st, c.Ne(d, o.X[0]), "donated", e.defTags(), "storage that was given away is not touched")
			}
			r := e.qvar("st", SInt, 95)
			h := e.hget(st.heap, "E:byte", ArrOf(SInt, ArrOf(SInt, SInt)))
			nw := c.Fresh("E:byte", h.Srt)
			own := c.And(c.Eq(c.Select(e.okind(st.heap), r), c.Int(3)), c.Eq(c.Select(e.oref(st.heap), r), o.X[0]))
			a := c.Select(nw, r)
			e.add(st, c.Forall([]*Term{r}, c.Or(own, c.Eq(a, c.Select(h, r))), []*Term{a}))
			j := e.qvar("sj", SInt, 95)
			b := c.Select(a, j)
			e.add(st, c.Forall([]*Term{r, j}, c.And(c.Le(c.Int(0), b), c.Le(b, c.Int(255))), []*Term{b}))
			if e.heapFrom == nil {
				e.heapFrom = map[*Term]*loopHeap{}
			}
			e.heapFrom[nw] = &loopHeap{cur: h, hm: &heapMod{whole: true, owned: []*Term{o.X[0]}}}
			st.heap["E:byte"] = nw
			return
		}
	case "unary":
		if m.S == "*" {
			v := e.eval(st, &pn, m.A[0])
			if p, ok := under2(v.T).(*types.Pointer); ok {
				if s, ok := under(p.Elem()).(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						f := s.Field(i)
						if isSyncType(f.Type()) {
							continue
						}
						if isAgg(f.Type()) {
							unsup("modifies of an object with nested aggregate %s", f.Name())
						}
						e.storeField(st, p.Elem(), i, v.X[0], e.fresh(st, "mf", f.Type()))
					}
					return
				}
			}
		}
	}
	specErr(m, "bad modifies target")
}

func byteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	k := typeKey(s.Elem())
	return k == "byte" || k == "uint8"
}

// donate: ownership of the storage of a byte slice passes to an immutable body.
func (e *Eng) donate(st *State, v Val, site string) {
	c := e.c
	if len(v.X) != 4 {
		return
	}
	k := c.Select(e.okind(st.heap), v.X[0])
	// storage of an object created here may be given away too, but then the
	// object must not touch it any more
	o := c.Select(e.oref(st.heap), v.X[0])
	if k.num == nil || k.num.Int64() == 3 {
		st.given = append(st.given, c.Ite(c.Eq(k, c.Int(3)), o, c.Int(0)))
		e.prove(st, c.Or(c.Eq(v.X[2], c.Int(0)), c.Ne(k, c.Int(3)), c.And(c.Lt(o, c.Int(0)), e.noInvOwner(st, o))), "donate", e.defTags(), "storage given to "+site+" is not shared with a buffer")
	}
	st.heap["okind"] = c.Store(e.okind(st.heap), v.X[0], c.Int(1))
}

// noInvOwner: o is none of the objects whose invariant speaks of their storage.
func (e *Eng) noInvOwner(st *State, o *Term) *Term {
	r := e.c.T
	for _, u := range st.unshared {
		r = e.c.And(r, e.c.Ne(o, u.ref))
	}
	return r
}

// wperm checks that storage may be written.
func (e *Eng) wperm(st *State, key string, arr *Term) {
	c := e.c
	if key != "E:byte" && key != "E:uint8" {
		return
	}
	if arr.num != nil && arr.num.Sign() == 0 {
		return
	}
	k := c.Select(e.okind(st.heap), arr)
	if k.num != nil && k.num.Int64() == 2 {
		return
	}
	var hs []*Term
	for _, h := range st.held {
		hs = append(hs, c.Eq(c.Select(e.oref(st.heap), arr), h.ref))
	}
	for _, u := range st.unshared {
		hs = append(hs, c.Eq(c.Select(e.oref(st.heap), arr), u.ref))
	}
	ok := c.And(c.Ne(k, c.Int(1)), c.Or(c.Ne(k, c.Int(3)), c.Or(hs...)))
	e.prove(st, ok, "write-permission", e.defTags(), "storage written may be written")
}

// ---- builtins ----

func (e *Eng) builtin(st *State, b *ssa.Builtin, args []Val, cc *ssa.CallCommon, pos token.Pos) []Outcome {
	c := e.c
	ret := func(t types.Type, x ...*Term) []Outcome {
		return []Outcome{{st: st, res: []Val{{T: t, X: x}}}}
	}
	switch b.Name() {
	case "len":
		v := args[0]
		switch u := under(v.T).(type) {
		case *types.Slice:
			return ret(types.Typ[types.Int], v.X[2])
		case *types.Map:
			return ret(types.Typ[types.Int], e.mapLen(st, st.heap, u, v.X[0]))
		case *types.Basic:
			return ret(types.Typ[types.Int], e.slen(st, v.X[0]))
		}
	case "cap":
		if len(args[0].X) == 4 {
			return ret(types.Typ[types.Int], args[0].X[3])
		}
	case "append":
		return e.appendOp(st, args[0], args[1])
	case "copy":
		n := e.copyOp(st, args[0], args[1])
		return ret(types.Typ[types.Int], n)
	case "delete":
		mt := under(args[0].T).(*types.Map)
		k := args[1]
		if leaves(mt.Key())[0].srt == SIface && k.X[0].Srt != SIface {
			k = Val{T: mt.Key(), X: []*Term{e.mkIface(st, k)}}
		}
		e.mapDelete(st, mt, args[0].X[0], k)
		return []Outcome{{st: st}}
	case "recover":
		it := types.NewInterfaceType(nil, nil)
		if n := len(st.panicv); n > 0 && !st.panicv[n-1].recovered {
			st.panicv[n-1].recovered = true
			return []Outcome{{st: st, res: []Val{{T: it, X: st.panicv[n-1].val.X}}}}
		}
		return ret(it, c.NilI())
	case "print", "println":
		return []Outcome{{st: st}}
	case "ssa:wrapnilchk":
		return []Outcome{{st: st, res: []Val{args[0]}}}
	case "min", "max":
		if args[0].X[0].Srt == SInt {
			r := args[0].X[0]
			for _, a := range args[1:] {
				if b.Name() == "min" {
					r = c.Ite(c.Le(r, a.X[0]), r, a.X[0])
				} else {
					r = c.Ite(c.Le(a.X[0], r), r, a.X[0])
				}
			}
			return ret(args[0].T, r)
		}
	}
	unsup("builtin %s", b.Name())
	return nil
}

const smallN = 8

func (e *Eng) appendOp(st *State, s, y Val) []Outcome {
	c := e.c
	t := s.T
	el := under(t).(*types.Slice).Elem()
	var n *Term
	str := isStr(y)
	if str {
		n = e.slen(st, y.X[0])
	} else {
		n = y.X[2]
	}
	newLen := c.Add(s.X[2], n)
	fits := c.Le(newLen, s.X[3])
	var outs []Outcome
	src := func(l leaf, heap map[string]*Term, j *Term) *Term {
		if str {
			return c.App("sbyte", SInt, y.X[0], j)
		}
		k := "E:" + typeKey(el) + l.suf
		return c.Select(c.Select(e.hget(heap, k, e.heapSort(k, l.srt)), y.X[0]), c.Add(y.X[1], j))
	}
	do := func(st *State, inPlace bool) Outcome {
		old := map[string]*Term{}
		for k, v := range st.heap {
			old[k] = v
		}
		arr, off := s.X[0], s.X[1]
		cp := s.X[3]
		if inPlace {
			if n != c.Int(0) {
				e.wperm(st, "E:"+typeKey(el), arr)
			}
		} else {
			arr, off = e.newRef(st), c.Int(0)
			cp = c.Fresh("cap", SInt)
			e.add(st, c.Le(newLen, cp))
			e.add(st, c.Le(cp, c.Big(maxMem)))
			if k := typeKey(el); k == "byte" || k == "uint8" {
				st.heap["okind"] = c.Store(e.okind(st.heap), arr, c.Int(2))
			}
		}
		for _, l := range leaves(el) {
			k := "E:" + typeKey(el) + l.suf
			h := e.hget(old, k, e.heapSort(k, l.srt))
			oin := c.Select(h, s.X[0])
			var in *Term
			j := e.qvar("aj", SInt, 93)
			if inPlace {
				in = oin
			} else if s.X[2] == c.Int(0) {
				in = c.Fresh("app", ArrOf(SInt, l.srt))
			} else {
				in = c.Fresh("app", ArrOf(SInt, l.srt))
				sj := c.Select(in, j)
				e.add(st, c.Forall([]*Term{j}, c.Imp(c.And(c.Le(c.Int(0), j), c.Lt(j, s.X[2])), c.Eq(sj, c.Select(oin, c.Add(s.X[1], j)))), []*Term{sj}))
			}
			if n.num != nil && n.num.Int64() <= smallN {
				for q := int64(0); q < n.num.Int64(); q++ {
					in = c.Store(in, c.Add(off, s.X[2], c.Int(q)), src(l, old, c.Int(q)))
				}
			} else {
				nw := c.Fresh("app", ArrOf(SInt, l.srt))
				st0 := c.Add(off, s.X[2])
				sj := c.Select(nw, j)
				inr := c.And(c.Le(st0, j), c.Lt(j, c.Add(st0, n)))
				e.add(st, c.Forall([]*Term{j}, c.And(c.Imp(inr, c.Eq(sj, src(l, old, c.Sub(j, st0)))), c.Or(inr, c.Eq(sj, c.Select(in, j)))), []*Term{sj}))
				in = nw
			}
			st.heap[k] = c.Store(e.hget(st.heap, k, e.heapSort(k, l.srt)), arr, in)
		}
		return Outcome{st: st, res: []Val{{T: t, X: []*Term{arr, off, newLen, cp}}}}
	}
	canFit, canGrow := e.feasible(st, fits), e.feasible(st, c.Not(fits))
	if n == c.Int(0) {
		return []Outcome{{st: st, res: []Val{s}}}
	}
	if canFit && canGrow {
		s2 := st.clone()
		e.add(s2, c.Not(fits))
		outs = append(outs, do(s2, false))
		e.add(st, fits)
		outs = append(outs, do(st, true))
		return outs
	}
	if canFit {
		e.add(st, fits)
		return []Outcome{do(st, true)}
	}
	e.add(st, c.Not(fits))
	return []Outcome{do(st, false)}
}

func (e *Eng) copyOp(st *State, d, s Val) *Term {
	c := e.c
	el := under(d.T).(*types.Slice).Elem()
	str := isStr(s)
	var sl *Term
	if str {
		sl = e.slen(st, s.X[0])
	} else {
		sl = s.X[2]
	}
	n := c.Ite(c.Le(d.X[2], sl), d.X[2], sl)
	if n.Op == "ite" {
		if e.valid(st, c.Le(d.X[2], sl)) {
			n = d.X[2]
		} else if e.valid(st, c.Le(sl, d.X[2])) {
			n = sl
		} else {
			f := c.Fresh("ncopy", SInt)
			e.add(st, c.Eq(f, n))
			n = f
		}
	}
	if n == c.Int(0) {
		return n
	}
	if !e.valid(st, c.Eq(n, c.Int(0))) {
		e.wpermIf(st, "E:"+typeKey(el), d.X[0], c.Lt(c.Int(0), n))
	}
	for _, l := range leaves(el) {
		k := "E:" + typeKey(el) + l.suf
		h := e.hget(st.heap, k, e.heapSort(k, l.srt))
		din := c.Select(h, d.X[0])
		nw := c.Fresh("cp", ArrOf(SInt, l.srt))
		j := e.qvar("cj", SInt, 94)
		nj := c.Select(nw, j)
		var sv *Term
		if str {
			sv = c.App("sbyte", SInt, s.X[0], c.Sub(j, d.X[1]))
		} else {
			sv = c.Select(c.Select(h, s.X[0]), c.Add(j, s.X[1], c.Sub(c.Int(0), d.X[1])))
		}
		inr := c.And(c.Le(d.X[1], j), c.Lt(j, c.Add(d.X[1], n)))
		pats := [][]*Term{{nj}}
		e.add(st, c.Forall([]*Term{j}, c.And(c.Imp(inr, c.Eq(nj, sv)), c.Or(inr, c.Eq(nj, c.Select(din, j)))), pats...))
		st.heap[k] = c.Store(h, d.X[0], nw)
	}
	return n
}

func (e *Eng) wpermIf(st *State, key string, arr, cond *Term) {
	c := e.c
	if key != "E:byte" && key != "E:uint8" {
		return
	}
	k := c.Select(e.okind(st.heap), arr)
	if k.num != nil && k.num.Int64() == 2 {
		return
	}
	var hs []*Term
	for _, h := range st.held {
		hs = append(hs, c.Eq(c.Select(e.oref(st.heap), arr), h.ref))
	}
	for _, u := range st.unshared {
		hs = append(hs, c.Eq(c.Select(e.oref(st.heap), arr), u.ref))
	}
	ok := c.Imp(cond, c.And(c.Ne(k, c.Int(1)), c.Or(c.Ne(k, c.Int(3)), c.Or(hs...))))
	e.prove(st, ok, "write-permission", e.defTags(), "storage written may be written")
}

// ---- strings ----

// canon is http.CanonicalHeaderKey.
func (e *Eng) canon(st *State, s *Term) *Term {
	c := e.c
	if v, ok := c.LitVal(s); ok {
		return c.Lit(textproto.CanonicalMIMEHeaderKey(v))
	}
	r := c.App("canonkey", SStr, s)
	if !r.bound {
		c.Axiom(c.Eq(c.App("canonkey", SStr, r), r))
	}
	return r
}

func (e *Eng) itoa(st *State, n *Term) *Term {
	if n.num != nil {
		return e.c.Lit(n.num.String())
	}
	v := e.c.Var("n", SInt)
	a := e.c.App("itoa", SStr, v)
	if !e.itoaAx {
		e.itoaAx = true
		e.c.Axiom(e.c.Forall([]*Term{v}, e.c.Eq(e.c.App("atoi", SInt, a), v), []*Term{a}))
	}
	return e.c.App("itoa", SStr, n)
}

// ---- intrinsics ----

func (e *Eng) intrinsic(st *State, key string, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	c := e.c
	ok := func(res ...Val) ([]Outcome, bool) { return []Outcome{{st: st, res: res}}, true }
	strT := types.Typ[types.String]
	if strings.HasPrefix(key, "atomic.") && fn != nil && fn.Signature.Recv() == nil && len(args) > 0 {
		if outs, done := e.atomicOp(st, fn.Name(), args, pos); done {
			return outs, true
		}
	}
	switch key {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		return e.lock(st, args[0].X[0], key == "(*sync.RWMutex).RLock", pos), true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		e.unlock(st, args[0].X[0], pos)
		return ok()
	case "assert.NotNil", "assert.AssertNotNil":
		v := e.ptrIn(st, args[0])
		var cond *Term
		if v.X[0].Srt == SIface {
			cond = c.Ne(c.ITyp(v.X[0]), c.Int(0))
		} else {
			cond = c.Ne(v.X[0], c.Int(0))
		}
		outs := e.assertPanic(st, cond, pos)
		if len(outs) > 0 && e.dead(st) {
			return outs, true
		}
		return append(outs, Outcome{st: st}), true
	case "http.CanonicalHeaderKey", "textproto.CanonicalMIMEHeaderKey":
		return ok(Val{T: strT, X: []*Term{e.canon(st, args[0].X[0])}})
	case "strconv.Itoa":
		return ok(Val{T: strT, X: []*Term{e.itoa(st, args[0].X[0])}})
	case "strconv.FormatInt":
		if args[1].X[0].num != nil && args[1].X[0].num.Int64() == 10 {
			return ok(Val{T: strT, X: []*Term{e.itoa(st, args[0].X[0])}})
		}
	case "strconv.AppendInt":
		if args[2].X[0].num != nil && args[2].X[0].num.Int64() == 10 {
			return e.appendOp(st, args[0], Val{T: strT, X: []*Term{e.itoa(st, args[1].X[0])}}), true
		}
	case "fmt.Sprint", "fmt.Sprintf":
		if v, okk := e.sprintf(st, key, args); okk {
			return ok(Val{T: strT, X: []*Term{v}})
		}
		return ok(e.fresh(st, "sprintf", strT))
	case "fmt.Fprintf", "io.WriteString":
		// to a string builder or byte buffer of the code itself
		x := args[0].X[0]
		tg := c.ITyp(x)
		if tg.num == nil {
			break
		}
		t := e.tagT[int(tg.num.Int64())]
		if t == nil || typeKey(t) != "*bytes.Buffer" && typeKey(t) != "*strings.Builder" {
			break
		}
		text := args[1].X[0]
		if key == "fmt.Fprintf" {
			v, okk := e.sprintf(st, "fmt.Sprintf", args[1:])
			if !okk {
				v = e.fresh(st, "sprintf", strT).X[0]
			}
			text = v
		}
		if ws := e.P.prog.LookupMethod(t, nil, "WriteString"); ws != nil {
			return e.callFn(st, nil, ws, []Val{e.unbox(st, x, t), {T: strT, X: []*Term{text}}}, nil, pos), true
		}
	case "fmt.Errorf":
		r := e.newRef(st)
		tg := e.c.Const("tag!*fmt.wrapError", SInt)
		c.Axiom(c.Lt(c.Int(1000000), tg))
		x := c.MkI(tg, r)
		if f, isLit := c.LitVal(args[0].X[0]); isLit && strings.Contains(f, "%w") {
			idx := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
					i++
				}
				if i < len(f) && f[i] == '%' {
					continue
				}
				if i < len(f) && f[i] == 'w' {
					w := e.vararg(st, args[1], idx)
					e.add(st, e.errIs(st, x, w))
					t := c.Var("t", SIface)
					a := c.App("errIs", SBool, w, t)
					b := c.App("errIs", SBool, x, t)
					e.add(st, c.Forall([]*Term{t}, c.Imp(a, b), []*Term{b}, []*Term{a}))
				}
				idx++
			}
		}
		return ok(Val{T: fn.Signature.Results().At(0).Type(), X: []*Term{x}})
	case "errors.New":
		r := e.newRef(st)
		return ok(Val{T: fn.Signature.Results().At(0).Type(), X: []*Term{c.MkI(e.namedTag("*errors.errorString"), r)}})
	case "errors.Is":
		return ok(Val{T: types.Typ[types.Bool], X: []*Term{e.errIs(st, args[0].X[0], args[1].X[0])}})
	case "errors.As":
		return nil, false
	}
	return nil, false
}

// atomicOp executes a function of sync/atomic on an integer as the plain
// operation: a field that a lock guards is still accessed under that lock only.
func (e *Eng) atomicOp(st *State, name string, args []Val, pos token.Pos) ([]Outcome, bool) {
	c := e.c
	pt, ok := under(args[0].T).(*types.Pointer)
	if !ok {
		return nil, false
	}
	if b, ok := under(pt.Elem()).(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil, false
	}
	op := ""
	for _, p := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
		if strings.HasPrefix(name, p) {
			op = p
		}
	}
	if op == "" {
		return nil, false
	}
	outs := e.nilcheck(st, args[0], pos)
	old := e.load(st, args[0])
	val := func(t *Term) Val { return Val{T: pt.Elem(), X: []*Term{t}} }
	var res []Val
	switch op {
	case "Load":
		res = []Val{old}
	case "Add":
		v := val(e.inRange(st, c.Add(old.X[0], args[1].X[0]), pt.Elem()))
		e.storeP(st, args[0], v)
		res = []Val{v}
	case "Store":
		e.storeP(st, args[0], args[1])
	case "Swap":
		e.storeP(st, args[0], args[1])
		res = []Val{old}
	case "CompareAndSwap":
		eq := c.Eq(old.X[0], args[1].X[0])
		e.storeP(st, args[0], val(c.Ite(eq, args[2].X[0], old.X[0])))
		res = []Val{{T: types.Typ[types.Bool], X: []*Term{eq}}}
	}
	return append(outs, Outcome{st: st, res: res}), true
}

func (e *Eng) errIs(st *State, a, b *Term) *Term {
	c := e.c
	if a == b {
		return c.T
	}
	r := c.App("errIs", SBool, a, b)
	e.add(st, c.Imp(c.Eq(a, b), r))
	// nil matches only nil
	e.add(st, c.Imp(c.And(r, c.Eq(c.ITyp(a), c.Int(0))), c.Eq(c.ITyp(b), c.Int(0))))
	return r
}

// vararg returns the interface stored at position i of a variadic list.
func (e *Eng) vararg(st *State, v Val, i int) *Term {
	el := under(v.T).(*types.Slice).Elem()
	return e.elemLoad(st, st.heap, "E:"+typeKey(el), el, v.X[0], e.c.Add(v.X[1], e.c.Int(int64(i)))).X[0]
}

// ptrIn loads through the pointer stored in an interface value.
func (e *Eng) ptrIn(st *State, v Val) Val {
	iv := e.c.IVal(v.X[0])
	if d, ok := st.dyn[iv]; ok && d.A != nil {
		return e.load(st, d)
	}
	tg := e.c.ITyp(v.X[0])
	if tg.num != nil {
		if t, ok := e.tagT[int(tg.num.Int64())]; ok {
			if _, ok := under(t).(*types.Pointer); ok {
				return e.load(st, Val{T: t, X: []*Term{iv}})
			}
		}
	}
	unsup("pointer in interface is not known")
	return Val{}
}

func (e *Eng) assertPanic(st *State, cond *Term, pos token.Pos) []Outcome {
	outs := e.must(st, cond, "assertion failure", pos)
	for i := range outs {
		o := &outs[i]
		t := e.resolveType("assert.Error", nil)
		tg := e.c.Const("tag!assert.Error", SInt)
		if t != nil {
			tg = e.tag(t)
			e.implFacts(st)
		}
		o.pv = Val{T: types.NewInterfaceType(nil, nil), X: []*Term{e.c.MkI(tg, e.c.Fresh("asserr", SInt))}}
	}
	if cond == e.c.F {
		e.add(st, e.c.F)
	}
	return outs
}

// sprintf models the formats %d, %s, %q-free literal text of known shape.
func (e *Eng) sprintf(st *State, key string, args []Val) (*Term, bool) {
	if key != "fmt.Sprintf" {
		return nil, false
	}
	f, isLit := e.c.LitVal(args[0].X[0])
	if !isLit {
		return nil, false
	}
	out := e.c.Lit("")
	idx := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		out = e.c.Cat(out, e.c.Lit(lit))
		lit = ""
		a := e.vararg(st, args[1], idx)
		idx++
		if a.Op != "mkI" || a.Args[0].num == nil {
			return nil, false
		}
		t := e.tagT[int(a.Args[0].num.Int64())]
		b, isB := t.(*types.Basic)
		if !isB {
			return nil, false
		}
		v := e.unbox(st, a, t)
		switch {
		case f[i] == 'd' && b.Info()&types.IsInteger != 0:
			out = e.c.Cat(out, e.itoa(st, v.X[0]))
		case (f[i] == 's' || f[i] == 'v') && b.Info()&types.IsString != 0:
			out = e.c.Cat(out, v.X[0])
		case f[i] == 'v' && b.Info()&types.IsInteger != 0:
			out = e.c.Cat(out, e.itoa(st, v.X[0]))
		default:
			return nil, false
		}
	}
	_ = strconv.Itoa
	return e.c.Cat(out, e.c.Lit(lit)), true
}
