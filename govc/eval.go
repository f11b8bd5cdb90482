package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync"
)

var gidMu sync.Mutex

// Env is the environment of a specification expression.
type Env struct {
	vars map[string]Val
	heap map[string]*Term
	old  map[string]*Term
	lets map[string]*Expr
	pkg  *types.Package
	up   *Env           // enclosing
	oldV map[string]Val // values of names inside old(...)
	dep  int
}

func (n *Env) with(name string, v Val) *Env {
	m := make(map[string]Val, len(n.vars)+1)
	for k, x := range n.vars {
		m[k] = x
	}
	m[name] = v
	c := *n
	c.vars = m
	return &c
}

func specErr(x *Expr, f string, a ...interface{}) {
	unsup("spec %s: %s: %s", x.Line, x.String(), fmt.Sprintf(f, a...))
}

// resolveType finds a type by its short name.
func (e *Eng) resolveType(name string, pkg *types.Package) types.Type {
	if strings.HasPrefix(name, "*") {
		t := e.resolveType(name[1:], pkg)
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(name, "[]") {
		t := e.resolveType(name[2:], pkg)
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	if i := strings.Index(name, "."); i >= 0 {
		p := e.P.byName[name[:i]]
		if p == nil {
			return nil
		}
		o := p.Scope().Lookup(name[i+1:])
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
		return nil
	}
	if o, ok := types.Universe.Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	if pkg != nil {
		if o, ok := pkg.Scope().Lookup(name).(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

func (e *Eng) evalB(st *State, n *Env, x *Expr) *Term {
	v := e.eval(st, n, x)
	if len(v.X) != 1 || v.X[0].Srt != SBool {
		specErr(x, "not a boolean")
	}
	return v.X[0]
}

func (e *Eng) evalT(st *State, n *Env, x *Expr) *Term {
	v := e.eval(st, n, x)
	if len(v.X) != 1 {
		specErr(x, "not a single term (%v)", v.T)
	}
	return v.X[0]
}

// evalIface evaluates an expression as an interface value.
func (e *Eng) evalIface(st *State, n *Env, x *Expr) *Term {
	v := e.eval(st, n, x)
	if len(v.X) == 1 && v.X[0].Srt == SIface && (v.T == nil || types.IsInterface(v.T)) {
		return v.X[0]
	}
	if v.T == nil || st == nil {
		specErr(x, "not an interface value")
	}
	return e.mkIface(st, v)
}

func gv(t *Term) Val { return Val{X: []*Term{t}} }

func (e *Eng) ghostKey(name string) string { return "$" + name }

func (e *Eng) ghostGet(m map[string]*Term, name string) *Term {
	return e.hget(m, "$"+name, e.S.Ghosts[name])
}

func (e *Eng) eval(st *State, n *Env, x *Expr) Val {
	c := e.c
	n.dep++
	defer func() { n.dep-- }()
	switch x.K {
	case "int":
		b, ok := new(big.Int).SetString(x.S, 10)
		if !ok {
			specErr(x, "bad integer")
		}
		return gv(c.Big(b))
	case "str":
		return Val{T: types.Typ[types.String], X: []*Term{c.Lit(x.S)}}
	case "true":
		return gv(c.T)
	case "false":
		return gv(c.F)
	case "nil":
		return Val{T: types.Typ[types.UntypedNil], X: []*Term{c.Int(0)}}
	case "id":
		return e.evalID(st, n, x)
	case "old":
		m := *n
		m.heap = n.old
		if n.oldV != nil {
			mv := make(map[string]Val, len(n.vars))
			for k, v := range n.vars {
				mv[k] = v
			}
			for k, v := range n.oldV {
				mv[k] = v
			}
			m.vars = mv
		}
		return e.eval(st, &m, x.A[0])
	case "unary":
		switch x.S {
		case "!":
			return gv(c.Not(e.evalB(st, n, x.A[0])))
		case "-":
			return gv(c.Sub(c.Int(0), e.evalT(st, n, x.A[0])))
		case "*":
			v := e.eval(st, n, x.A[0])
			p, ok := under(v.T).(*types.Pointer)
			if !ok {
				specErr(x, "dereference of %s", v.T)
			}
			if isAgg(p.Elem()) {
				return e.loadRef(st, n.heap, p.Elem(), v.X[0])
			}
			if v.A != nil && v.A.kind == "cell" {
				return st.cells[v.A.cell]
			}
			return e.loadKey(st, n.heap, "P:"+typeKey(p.Elem()), p.Elem(), v.X[0])
		}
	case "binary":
		return e.evalBin(st, n, x)
	case "field":
		return e.evalField(st, n, x)
	case "index":
		return e.evalIndex(st, n, x)
	case "slice":
		s := e.eval(st, n, x.A[0])
		lo, hi := e.evalT(st, n, x.A[1]), e.evalT(st, n, x.A[2])
		if b, ok := under2(s.T).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return Val{T: s.T, X: []*Term{e.substr(st, s.X[0], lo, hi)}}
		}
		if len(s.X) != 4 {
			specErr(x, "not a slice")
		}
		return Val{T: s.T, X: []*Term{s.X[0], c.Add(s.X[1], lo), c.Sub(hi, lo), c.Sub(s.X[3], lo)}}
	case "whole":
		return e.eval(st, n, x.A[0])
	case "is":
		v := e.eval(st, n, x.A[0])
		t := e.resolveType(x.T, n.pkg)
		if t == nil {
			specErr(x, "unknown type %s", x.T)
		}
		if v.T != nil && !types.IsInterface(v.T) && (len(v.X) != 1 || v.X[0].Srt != SIface) { // a concrete value
			if types.IsInterface(t) {
				return gv(c.Bool(types.Implements(v.T, under(t).(*types.Interface))))
			}
			return gv(c.Bool(types.Identical(v.T, t)))
		}
		if types.IsInterface(t) {
			return gv(e.implOf(st, c.ITyp(v.X[0]), t))
		}
		e.tag(t)
		e.implFacts(st)
		return gv(c.Eq(c.ITyp(v.X[0]), e.tag(t)))
	case "assert":
		v := e.eval(st, n, x.A[0])
		t := e.resolveType(x.T, n.pkg)
		if t == nil {
			specErr(x, "unknown type %s", x.T)
		}
		if types.IsInterface(t) {
			return Val{T: t, X: v.X}
		}
		return e.unbox(st, v.X[0], t)
	case "forall", "exists":
		return gv(e.evalQuant(st, n, x))
	case "forallm", "existsm":
		m := n
		var vs []*Term
		for i, nm := range x.Vs {
			srt := sortOf(x.Ts[i])
			v := e.qvar(nm, srt, n.dep)
			vs = append(vs, v)
			w := gv(v)
			if srt == SStr {
				w.T = types.Typ[types.String]
			}
			m = m.with(nm, w)
		}
		body := e.evalB(st, m, x.A[0])
		var pats [][]*Term
		for _, ps := range x.Pats {
			var ts []*Term
			for _, p := range ps {
				ts = append(ts, e.eval(st, m, p).X[0])
			}
			pats = append(pats, ts)
		}
		if x.K == "forallm" {
			return gv(e.c.Forall(vs, body, pats...))
		}
		return gv(e.c.Exists(vs, body, pats...))
	case "card":
		return gv(e.evalCard(st, n, x))
	case "call":
		return e.evalCall(st, n, x)
	}
	specErr(x, "cannot evaluate %s", x.K)
	return Val{}
}

func under2(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return under(t)
}

func (e *Eng) lookupVar(n *Env, name string) (Val, bool) {
	v, ok := n.vars[name]
	return v, ok
}

func (e *Eng) evalID(st *State, n *Env, x *Expr) Val {
	if v, ok := n.vars[x.S]; ok {
		return v
	}
	if l, ok := n.lets[x.S]; ok {
		return e.eval(st, n, l)
	}
	if s, ok := e.S.Ghosts[x.S]; ok {
		return gv(e.hget(n.heap, "$"+x.S, s))
	}
	if d, ok := e.S.Defs[x.S]; ok && len(d.Params) == 0 {
		return e.eval(st, n, d.E)
	}
	if n.pkg != nil {
		if v, ok := e.pkgMember(st, n, n.pkg, x.S); ok {
			return v
		}
	}
	specErr(x, "unknown name")
	return Val{}
}

func (e *Eng) pkgMember(st *State, n *Env, p *types.Package, name string) (Val, bool) {
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Var:
		return e.globalVal(st, n.heap, p, name, o.Type()), true
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Int:
			b, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return Val{T: o.Type(), X: []*Term{e.c.Big(b)}}, true
		case constant.String:
			return Val{T: o.Type(), X: []*Term{e.c.Lit(constant.StringVal(o.Val()))}}, true
		case constant.Bool:
			return Val{T: o.Type(), X: []*Term{e.c.Bool(constant.BoolVal(o.Val()))}}, true
		}
	}
	return Val{}, false
}

func (e *Eng) evalBin(st *State, n *Env, x *Expr) Val {
	c := e.c
	switch x.S {
	case "&&":
		return gv(c.And(e.evalB(st, n, x.A[0]), e.evalB(st, n, x.A[1])))
	case "||":
		return gv(c.Or(e.evalB(st, n, x.A[0]), e.evalB(st, n, x.A[1])))
	case "==>":
		return gv(c.Imp(e.evalB(st, n, x.A[0]), e.evalB(st, n, x.A[1])))
	case "<==>":
		return gv(c.Iff(e.evalB(st, n, x.A[0]), e.evalB(st, n, x.A[1])))
	}
	a, b := e.eval(st, n, x.A[0]), e.eval(st, n, x.A[1])
	switch x.S {
	case "==":
		return gv(e.specEq(st, x, a, b))
	case "!=":
		return gv(c.Not(e.specEq(st, x, a, b)))
	}
	if len(a.X) != 1 || len(b.X) != 1 {
		specErr(x, "operands are not scalars")
	}
	p, q := a.X[0], b.X[0]
	switch x.S {
	case "+":
		if p.Srt == SStr {
			return Val{T: types.Typ[types.String], X: []*Term{c.Cat(p, q)}}
		}
		return gv(c.Add(p, q))
	case "-":
		return gv(c.Sub(p, q))
	case "*":
		return gv(c.Mul(p, q))
	case "/":
		if p.Srt == SFlt {
			r, _ := e.binop(st, token.QUO, Val{T: types.Typ[types.Float64], X: a.X}, Val{T: types.Typ[types.Float64], X: b.X}, types.Typ[types.Float64], 0)
			return r
		}
		return gv(c.mk("div", SInt, p, q))
	case "%":
		if q.num != nil {
			return gv(c.Mod(p, q.num))
		}
		return gv(c.mk("mod", SInt, p, q))
	case "<":
		return gv(c.Lt(p, q))
	case "<=":
		return gv(c.Le(p, q))
	case ">":
		return gv(c.Lt(q, p))
	case ">=":
		return gv(c.Le(q, p))
	}
	specErr(x, "operator")
	return Val{}
}

func isNilVal(v Val) bool {
	if v.T == nil {
		return false
	}
	b, ok := v.T.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

// sameString adds that the string with the bytes of a slice is s if the bytes
// and the length are those of s.
func (e *Eng) sameString(st *State, t, s *Term) {
	if st == nil || t.Op != "strof" || s.Op == "strof" || t.bound || s.bound || t == s {
		return
	}
	c := e.c
	in, off, n := t.Args[0], t.Args[1], t.Args[2]
	i := c.Var("si", SInt)
	sb := c.App("sbyte", SInt, s, i)
	all := c.Forall([]*Term{i}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.Eq(sb, c.Select(in, c.Add(off, i)))), []*Term{sb})
	e.add(st, c.Imp(c.And(c.Eq(c.App("slen", SInt, s), n), all), c.Eq(t, s)))
}

func (e *Eng) specEq(st *State, x *Expr, a, b Val) *Term {
	c := e.c
	if isNilVal(a) {
		a, b = b, a
	}
	if isNilVal(b) {
		if len(a.X) == 4 || a.X[0].Srt == SInt {
			return c.Eq(a.X[0], c.Int(0))
		}
		if a.X[0].Srt == SIface {
			return c.Eq(a.X[0], c.NilI())
		}
		specErr(x, "comparison with nil")
	}
	if len(a.X) == 1 && len(b.X) == 1 && a.X[0].Srt == b.X[0].Srt {
		e.sameString(st, a.X[0], b.X[0])
		e.sameString(st, b.X[0], a.X[0])
		return c.Eq(a.X[0], b.X[0])
	}
	if len(a.X) == 4 && len(b.X) == 4 {
		// identical slices: same storage, offset and length
		if _, ok := under2(a.T).(*types.Slice); ok {
			return c.And(c.Eq(a.X[0], b.X[0]), c.Eq(a.X[1], b.X[1]), c.Eq(a.X[2], b.X[2]))
		}
	}
	return e.equal(st, a, b)
}

func (e *Eng) evalField(st *State, n *Env, x *Expr) Val {
	b := x.A[0]
	if b.K == "id" {
		_, isVar := n.vars[b.S]
		_, isLet := n.lets[b.S]
		_, isGh := e.S.Ghosts[b.S]
		if !isVar && !isLet && !isGh {
			if p := e.P.byName[b.S]; p != nil {
				if v, ok := e.pkgMember(st, n, p, x.S); ok {
					return v
				}
				specErr(x, "unknown package member")
			}
		}
	}
	v := e.eval(st, n, b)
	if v.T == nil {
		specErr(x, "field of ghost value")
	}
	t := v.T
	isPtr := false
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
		isPtr = true
	}
	if nm, ok := types.Unalias(t).(*types.Named); ok {
		if ts := e.S.Types[typeKey(nm)]; ts != nil && isPtr {
			for _, g := range ts.Ghost {
				if g.Name == x.S {
					return gv(c0(e, n.heap, nm, g, v.X[0]))
				}
			}
		}
	}
	s, ok := under(t).(*types.Struct)
	if !ok {
		specErr(x, "field of %s", v.T)
	}
	idx := fieldPath(s, x.S)
	if idx == nil {
		specErr(x, "no field %s in %s", x.S, t)
	}
	cur := v
	ct := t
	for k, i := range idx {
		f := under(ct).(*types.Struct).Field(i)
		if isPtr {
			if isAgg(f.Type()) && k < len(idx)-1 {
				cur = Val{T: types.NewPointer(f.Type()), X: []*Term{e.embRef(ct, f.Name(), cur.X[0])}}
				ct = f.Type()
				continue
			}
			cur = e.loadField(st, n.heap, ct, i, cur.X[0])
		} else {
			lo, hi := fieldRange(ct, i)
			cur = Val{T: f.Type(), X: cur.X[lo:hi]}
		}
		ct = f.Type()
		isPtr = false
		if p, ok := under(ct).(*types.Pointer); ok && k < len(idx)-1 {
			ct = p.Elem()
			isPtr = true
		}
	}
	return cur
}

func c0(e *Eng, m map[string]*Term, nm *types.Named, g GhostField, ref *Term) *Term {
	return e.c.Select(e.hget(m, "F:"+typeKey(nm)+".$"+g.Name, ArrOf(SInt, g.Sort)), ref)
}

// fieldPath finds a field by name, through embedded structs.
func fieldPath(s *types.Struct, name string) []int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() {
			t := f.Type()
			if p, ok := under(t).(*types.Pointer); ok {
				t = p.Elem()
			}
			if es, ok := under(t).(*types.Struct); ok {
				if p := fieldPath(es, name); p != nil {
					return append([]int{i}, p...)
				}
			}
		}
	}
	return nil
}

func (e *Eng) evalIndex(st *State, n *Env, x *Expr) Val {
	c := e.c
	if x.A[0].K == "id" {
		if md := e.S.Models[x.A[0].S]; md != nil {
			if r, ok := e.evalModel(st, n, md, x); ok {
				return r
			}
		}
	}
	v := e.eval(st, n, x.A[0])
	i := e.eval(st, n, x.A[1])
	if v.T == nil {
		if len(v.X) != 1 || !strings.HasPrefix(string(v.X[0].Srt), "(Array") {
			specErr(x, "index of non-array")
		}
		ks, _ := arrParts(v.X[0].Srt)
		k := i.X[0]
		if ks == SIface && k.Srt != SIface {
			k = e.mkIface(st, i)
		}
		if ks != k.Srt {
			specErr(x, "index sort %s, want %s", k.Srt, ks)
		}
		return gv(c.Select(v.X[0], k))
	}
	switch u := under(v.T).(type) {
	case *types.Slice:
		s := st
		if i.X[0].bound {
			s = nil
		}
		return e.elemLoad(s, n.heap, "E:"+typeKey(u.Elem()), u.Elem(), v.X[0], c.Add(v.X[1], i.X[0]))
	case *types.Map:
		k := i.X[0]
		if leaves(u.Key())[0].srt == SIface && k.Srt != SIface {
			k = e.mkIface(st, i)
		}
		r := e.mapGetRaw(n.heap, u, v.X[0], k)
		if !k.bound && st != nil {
			e.typeFacts(st, r)
		}
		return r
	case *types.Basic:
		return Val{T: types.Typ[types.Byte], X: []*Term{c.App("sbyte", SInt, v.X[0], i.X[0])}}
	}
	specErr(x, "index of %s", v.T)
	return Val{}
}

// evalModel: ghost[x] where x is known to be a pointer to a type whose field
// represents the ghost.
func (e *Eng) evalModel(st *State, n *Env, md *Model, x *Expr) (Val, bool) {
	i := e.eval(st, n, x.A[1])
	if i.T != nil && types.IsInterface(i.T) && len(i.X) == 1 && i.X[0].Op == "mkI" && i.X[0].Args[0].num != nil {
		if t := e.tagT[int(i.X[0].Args[0].num.Int64())]; t != nil {
			i = Val{T: t, X: []*Term{i.X[0].Args[1]}}
		}
	}
	if i.T == nil {
		return Val{}, false
	}
	p, ok := under(i.T).(*types.Pointer)
	if !ok {
		return Val{}, false
	}
	s, ok := under(p.Elem()).(*types.Struct)
	if !ok {
		return Val{}, false
	}
	ct, ref := p.Elem(), i.X[0]
	for _, k := range fieldPath(s, md.Field) {
		u := under(ct).(*types.Struct)
		if structName(ct) == md.Type {
			return e.loadField(st, n.heap, ct, k, ref), true
		}
		f := u.Field(k)
		if !isAgg(f.Type()) {
			return Val{}, false
		}
		ref = e.embRef(ct, f.Name(), ref)
		ct = f.Type()
	}
	return Val{}, false
}

// ---- quantifiers ----

func containsTerm(t, v *Term) bool {
	if t == v {
		return true
	}
	if !t.bound {
		return false
	}
	for _, a := range t.Args {
		if containsTerm(a, v) {
			return true
		}
	}
	return false
}

// idxForms collects the index terms, linear in v with coefficient one, at
// which some array is read.
func (e *Eng) idxForms(t, v *Term, out *[]*Term, seen map[*Term]bool) {
	if seen[t] || !t.bound {
		return
	}
	seen[t] = true
	if t.Op == "select" && containsTerm(t.Args[1], v) && !containsTerm(t.Args[0], v) && t.Args[1].Srt == SInt {
		off := e.c.Sub(t.Args[1], v)
		if !containsTerm(off, v) {
			dup := false
			for _, o := range *out {
				if o == off {
					dup = true
				}
			}
			if !dup {
				*out = append(*out, off)
			}
		}
	}
	for _, a := range t.Args {
		e.idxForms(a, v, out, seen)
	}
}

// patterns collects trigger terms for v in t.
func (e *Eng) patterns(t, v *Term, out *[][]*Term, seen map[*Term]bool) {
	if seen[t] || !t.bound {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		e.patterns(a, v, out, seen)
	}
	switch t.Op {
	case "not", "and", "or", "=", "<=", "<", "+", "*", "ite", "forall", "exists", "mod", "div", "true", "false", "=>":
		return
	}
	direct := false
	for _, a := range t.Args {
		if a == v {
			direct = true
		} else if a.bound {
			return
		}
	}
	if direct && !t.isVar {
		*out = append(*out, []*Term{t})
	}
}

func (e *Eng) quantOver(op string, v, body *Term) *Term {
	c := e.c
	if !containsTerm(body, v) {
		return body
	}
	var pats [][]*Term
	e.patterns(body, v, &pats, map[*Term]bool{})
	if len(pats) > 6 {
		pats = pats[:6]
	}
	if op == "forall" {
		return c.Forall([]*Term{v}, body, pats...)
	}
	return c.Exists([]*Term{v}, body, pats...)
}

func (e *Eng) evalQuant(st *State, n *Env, x *Expr) *Term {
	c := e.c
	if x.T != "" {
		t := e.resolveType(x.T, n.pkg)
		var srt Sort
		switch x.T {
		case "int", "Int":
			srt = SInt
			t = nil
		case "Iface":
			srt = SIface
			t = nil
		default:
			if t == nil {
				specErr(x, "unknown type %s", x.T)
			}
			ls := leaves(t)
			if len(ls) != 1 {
				specErr(x, "quantifier over %s", x.T)
			}
			srt = ls[0].srt
		}
		v := e.qvar(x.V, srt, n.dep)
		body := e.evalB(st, n.with(x.V, Val{T: t, X: []*Term{v}}), x.A[0])
		return e.quantOver(x.K, v, body)
	}
	lo, hi := e.evalT(st, n, x.A[1]), e.evalT(st, n, x.A[2])
	v := e.qvar(x.V, SInt, n.dep)
	body := e.evalB(st, n.with(x.V, Val{X: []*Term{v}}), x.A[0])
	rng := c.And(c.Le(lo, v), c.Lt(v, hi))
	var full *Term
	if x.K == "forall" {
		full = c.Imp(rng, body)
	} else {
		full = c.And(rng, body)
	}
	var offs []*Term
	e.idxForms(body, v, &offs, map[*Term]bool{})
	if len(offs) == 0 {
		return e.quantOver(x.K, v, full)
	}
	if len(offs) > 2 {
		offs = offs[:2]
	}
	var parts []*Term
	for _, off := range offs {
		b := full
		if off != c.Int(0) {
			b = c.Subst(full, map[*Term]*Term{v: c.Sub(v, off)})
		}
		parts = append(parts, e.quantOver(x.K, v, b))
		if x.K == "exists" {
			break
		}
	}
	return c.And(parts...)
}

// qvar returns a canonical bound variable so that equal formulas are shared.
func (e *Eng) qvar(name string, s Sort, dep int) *Term {
	op := san(fmt.Sprintf("q~%s~%d~%s", name, dep, strings.Map(func(r rune) rune {
		if r == '(' || r == ')' || r == ' ' {
			return '_'
		}
		return r
	}, string(s))))
	t := e.c.mk(op, s)
	t.bound = true
	t.isVar = true
	return t
}

// ---- cardinality ----

func setSort() Sort { return ArrOf(SInt, SBool) }

// evalCard evaluates card v T :: cond.
func (e *Eng) evalCard(st *State, n *Env, x *Expr) *Term {
	t := e.resolveType(x.T, n.pkg)
	if t == nil {
		specErr(x, "unknown type")
	}
	v := e.qvar(x.V, SInt, n.dep)
	body := e.evalB(st, n.with(x.V, Val{T: t, X: []*Term{v}}), x.A[0])
	return e.cardOf(st, v, body)
}

func (e *Eng) cardOf(st *State, v, body *Term) *Term {
	c := e.c
	set, ok := e.cardMemo[body]
	if !ok {
		set = c.Fresh("set", setSort())
		e.cardMemo[body] = set
		if e.cardBody == nil {
			e.cardBody = map[*Term]*Term{}
			e.cardVar = map[*Term]*Term{}
		}
		e.cardBody[set] = body
		e.cardVar[set] = v
	}
	facts := func(ax func(t *Term)) {
		v, body := e.cardVar[set], e.cardBody[set]
		sv := c.Select(set, v)
		pats := [][]*Term{{sv}}
		var ps [][]*Term
		e.patterns(body, v, &ps, map[*Term]bool{})
		if len(ps) > 4 {
			ps = ps[:4]
		}
		pats = append(pats, ps...)
		def := c.Forall([]*Term{v}, c.Iff(sv, body), pats...)
		if def.bound {
			unsup("open set comprehension")
		}
		ax(def)
		ax(c.Le(c.Int(0), c.App("card", SInt, set)))
		e.assume("fewer than 2^31-1 bodies are open at the same time")
		ax(c.Lt(c.App("card", SInt, set), c.Int(2147483647)))
		w := c.App("cardwit", SInt, set)
		ax(c.Or(c.Select(set, w), c.Eq(c.App("card", SInt, set), c.Int(0))))
		ax(c.Forall([]*Term{v}, c.Imp(sv, c.Le(c.Int(1), c.App("card", SInt, set))), []*Term{sv}))
	}
	if st == nil {
		facts(c.Axiom)
	}
	if st != nil {
		found := false
		for _, s := range st.cards {
			if s == set {
				found = true
			}
		}
		if !found {
			facts(func(t *Term) { e.add(st, t) })
			st.cards = append(st.cards, set)
			e.linkCards(st)
		}
	}
	return c.App("card", SInt, set)
}

// linkCards relates the cardinalities of sets that differ in one element.
func (e *Eng) linkCards(st *State) {
	c := e.c
	empty := c.ConstArr(setSort(), c.F)
	sets := append([]*Term{empty}, st.cards...)
	card := func(s *Term) *Term {
		if s == empty {
			return c.Int(0)
		}
		return c.App("card", SInt, s)
	}
	one := func(b *Term) *Term { return c.Ite(b, c.Int(1), c.Int(0)) }
	for i := 0; i < len(sets); i++ {
		for j := i + 1; j < len(sets); j++ {
			els := append([]*Term{c.Int(0)}, st.celems...)
			for _, x := range els {
				key := fmt.Sprintf("%d/%d/%d", sets[i].id, sets[j].id, x.id)
				if st.linked[key] {
					continue
				}
				nl := make(map[string]bool, len(st.linked)+1)
				for k := range st.linked {
					nl[k] = true
				}
				nl[key] = true
				st.linked = nl
				a, b := sets[i], sets[j]
				w := c.App("cardiff", SInt, b, x, c.App("setid", SInt, a))
				eqn := c.Eq(card(b), c.Add(card(a), one(c.Select(b, x)), c.Sub(c.Int(0), one(c.Select(a, x)))))
				diff := c.And(c.Ne(w, x), c.Not(c.Iff(c.Select(b, w), c.Select(a, w))))
				e.add(st, c.Or(diff, eqn))
			}
		}
	}
}

// ---- calls in specifications ----

func (e *Eng) evalCall(st *State, n *Env, x *Expr) Val {
	c := e.c
	arg := func(i int) Val {
		if i >= len(x.A) {
			specErr(x, "missing argument")
		}
		return e.eval(st, n, x.A[i])
	}
	switch x.S {
	case "len":
		v := arg(0)
		switch u := under2(v.T).(type) {
		case *types.Slice:
			return gv(v.X[2])
		case *types.Map:
			return gv(e.mapLen(st, n.heap, u, v.X[0]))
		case *types.Basic:
			return gv(e.slen(st, v.X[0]))
		}
		if v.T == nil && v.X[0].Srt == SStr {
			return gv(e.slen(st, v.X[0]))
		}
		specErr(x, "len of %v", v.T)
	case "cap":
		return gv(arg(0).X[3])
	case "arr":
		return gv(arg(0).X[0])
	case "off":
		return gv(arg(0).X[1])
	case "has":
		m := arg(0)
		k := arg(1)
		mt, ok := under2(m.T).(*types.Map)
		if !ok {
			specErr(x, "has of %v", m.T)
		}
		kt := k.X[0]
		if leaves(mt.Key())[0].srt == SIface && kt.Srt != SIface {
			kt = e.mkIface(st, k)
		}
		return gv(e.mapHas(n.heap, mt, m.X[0], kt))
	case "fresh": // allocated during the call
		v := arg(0)
		return gv(c.Lt(v.X[0], c.Int(0)))
	case "existed":
		v := arg(0)
		return gv(c.Le(c.Int(0), v.X[0]))
	case "ref":
		v := arg(0)
		if v.X[0].Srt == SIface {
			return gv(c.IVal(v.X[0]))
		}
		return gv(v.X[0])
	case "iface":
		v := arg(0)
		return Val{T: types.NewInterfaceType(nil, nil), X: []*Term{e.mkIface(st, v)}}
	case "errval":
		v := arg(0)
		return Val{T: types.Universe.Lookup("error").Type(), X: []*Term{e.mkIface(st, v)}}
	case "okind":
		return gv(c.Select(e.okind(n.heap), arg(0).X[0]))
	case "ownedby":
		v, o := arg(0), arg(1)
		return gv(c.And(c.Eq(c.Select(e.okind(n.heap), v.X[0]), c.Int(3)), c.Eq(c.Select(e.oref(n.heap), v.X[0]), o.X[0])))
	case "string":
		v := arg(0)
		if len(v.X) == 1 {
			return v
		}
		return Val{T: types.Typ[types.String], X: []*Term{e.strOf(st, n.heap, v)}}
	case "ite":
		g := e.evalB(st, n, x.A[0])
		a, b := arg(1), arg(2)
		if isNilVal(a) {
			a.X = b.X[:0:0]
			for _, t := range b.X {
				a.X = append(a.X, zeroOfSort(e, t.Srt))
			}
			a.T = b.T
		}
		if isNilVal(b) {
			b.X = nil
			for _, t := range a.X {
				b.X = append(b.X, zeroOfSort(e, t.Srt))
			}
		}
		r := Val{T: a.T}
		for i := range a.X {
			r.X = append(r.X, c.Ite(g, a.X[i], b.X[i]))
		}
		return r
	case "min", "max":
		a, b := arg(0).X[0], arg(1).X[0]
		if x.S == "min" {
			return gv(c.Ite(c.Le(a, b), a, b))
		}
		return gv(c.Ite(c.Le(a, b), b, a))
	case "store":
		a, k, v := arg(0), arg(1), arg(2)
		ks, _ := arrParts(a.X[0].Srt)
		kt := k.X[0]
		if ks == SIface && kt.Srt != SIface {
			kt = e.mkIface(st, k)
		}
		return gv(c.Store(a.X[0], kt, v.X[0]))
	case "bytes_eq": // bytes_eq(a, b): same length and contents now
		return gv(e.bytesEq(st, n.heap, arg(0), n.heap, arg(1)))
	case "same": // same(s, t): t evaluated in old heap
		m := *n
		m.heap = n.old
		return gv(e.bytesEq(st, n.heap, arg(0), n.old, e.eval(st, &m, x.A[1])))
	case "canon":
		return Val{T: types.Typ[types.String], X: []*Term{e.canon(st, arg(0).X[0])}}
	case "itoa":
		return Val{T: types.Typ[types.String], X: []*Term{e.itoa(st, arg(0).X[0])}}
	case "chr": // the string of one byte
		x := arg(0).X[0]
		if x.num != nil && x.num.IsInt64() && x.num.Int64() >= 0 && x.num.Int64() < 256 {
			return Val{T: types.Typ[types.String], X: []*Term{c.Lit(string([]byte{byte(x.num.Int64())}))}}
		}
		r := c.App("bytestr", SStr, x)
		if st != nil && !r.bound {
			e.add(st, c.Eq(c.App("slen", SInt, r), c.Int(1)))
			e.add(st, c.Eq(c.App("sbyte", SInt, r, c.Int(0)), x))
		}
		return Val{T: types.Typ[types.String], X: []*Term{r}}
	case "contents": // the content array of a slice, shifted: only for offset-insensitive ghost functions
		v := arg(0)
		el := under(v.T).(*types.Slice).Elem()
		k := "E:" + typeKey(el)
		return gv(c.Select(e.hget(n.heap, k, e.heapSort(k, leaves(el)[0].srt)), v.X[0]))
	case "vals": // the values of a map with scalar elements
		m := arg(0)
		return gv(e.mapGetArr(n.heap, under(m.T).(*types.Map), m.X[0]))
	case "hdr": // the http.Header map with a reference
		t := e.resolveType("http.Header", nil)
		if t == nil {
			specErr(x, "no type http.Header")
		}
		return Val{T: t, X: arg(0).X}
	case "dom":
		m := arg(0)
		return gv(e.mapDom(n.heap, under(m.T).(*types.Map), m.X[0]))
	case "same_map_except": // same_map_except(m, old m, k...): contents equal except at keys
		return gv(e.mapSame(st, n, x))
	case "float":
		v := arg(0)
		return e.convert(st, Val{T: types.Typ[types.Int64], X: v.X}, types.Typ[types.Float64])
	case "negative": // a floating-point number less than zero
		return gv(e.fltNeg(arg(0).X[0]))
	case "errIs": // errors.Is(a, b)
		a, b := e.evalIface(st, n, x.A[0]), e.evalIface(st, n, x.A[1])
		if a.bound || b.bound || st == nil {
			return gv(c.App("errIs", SBool, a, b))
		}
		return gv(e.errIs(st, a, b))
	case "typ":
		return gv(c.ITyp(arg(0).X[0]))
	}
	if d, ok := e.S.Defs[x.S]; ok {
		if len(d.Params) != len(x.A) {
			specErr(x, "wrong number of arguments")
		}
		m := *n
		m.vars = make(map[string]Val, len(n.vars)+len(d.Params))
		for k, v := range n.vars {
			m.vars[k] = v
		}
		ov := map[string]Val{}
		for k, v := range n.oldV {
			ov[k] = v
		}
		byName := false
		for i, p := range d.Params {
			v := e.eval(st, n, x.A[i])
			if strings.HasPrefix(p, "@") { // inside old(...) the argument has its old value
				p = p[1:]
				byName = true
				ov[p] = e.eval(st, n, &Expr{K: "old", A: []*Expr{x.A[i]}, Line: x.Line})
				m.vars[p] = v
				continue
			}
			m.vars[p] = v
			ov[p] = v
		}
		if n.oldV != nil || byName {
			m.oldV = ov
		}
		return e.eval(st, &m, d.E)
	}
	if f, ok := e.S.Fns[x.S]; ok {
		var as []*Term
		for i := range x.A {
			v := arg(i)
			if i < len(f.Args) && f.Args[i] == SIface && v.X[0].Srt != SIface {
				v = gv(e.mkIface(st, v))
			}
			as = append(as, v.X...)
		}
		if len(as) != len(f.Args) {
			specErr(x, "wrong number of arguments: %d, want %d", len(as), len(f.Args))
		}
		for i := range as {
			if as[i].Srt != f.Args[i] {
				specErr(x, "argument %d has sort %s, want %s", i, as[i].Srt, f.Args[i])
			}
		}
		r := gv(c.App(x.S, f.Res, as...))
		if f.Res == SStr {
			r.T = types.Typ[types.String]
		}
		return r
	}
	specErr(x, "unknown function")
	return Val{}
}

func zeroOfSort(e *Eng, s Sort) *Term {
	switch s {
	case SInt:
		return e.c.Int(0)
	case SBool:
		return e.c.F
	case SStr:
		return e.c.Lit("")
	case SIface:
		return e.c.NilI()
	}
	return e.c.App("flt!0", SFlt)
}

// bytesEq: slices a (in heap ha) and b (in heap hb) have equal contents.
func (e *Eng) bytesEq(st *State, ha map[string]*Term, a Val, hb map[string]*Term, b Val) *Term {
	c := e.c
	sl, ok := under2(a.T).(*types.Slice)
	if !ok {
		unsup("bytes_eq of %v", a.T)
	}
	if isStr(b) {
		v := e.qvar("be", SInt, 90)
		ia := c.Select(e.hget(ha, "E:"+typeKey(sl.Elem()), ArrOf(SInt, ArrOf(SInt, SInt))), a.X[0])
		n := e.slen(st, b.X[0])
		body := c.Imp(c.And(c.Le(a.X[1], v), c.Lt(v, c.Add(a.X[1], n))), c.Eq(c.Select(ia, v), c.App("sbyte", SInt, b.X[0], c.Sub(v, a.X[1]))))
		return c.And(c.Eq(a.X[2], n), c.Forall([]*Term{v}, body, []*Term{c.Select(ia, v)}))
	}
	parts := []*Term{c.Eq(a.X[2], b.X[2])}
	v := e.qvar("be", SInt, 90)
	for _, l := range leaves(sl.Elem()) {
		k := "E:" + typeKey(sl.Elem()) + l.suf
		ia := c.Select(e.hget(ha, k, e.heapSort(k, l.srt)), a.X[0])
		ib := c.Select(e.hget(hb, k, e.heapSort(k, l.srt)), b.X[0])
		if ia == ib && a.X[1] == b.X[1] {
			continue
		}
		body := c.Imp(c.And(c.Le(a.X[1], v), c.Lt(v, c.Add(a.X[1], a.X[2]))), c.Eq(c.Select(ia, v), c.Select(ib, c.Add(v, b.X[1], c.Sub(c.Int(0), a.X[1])))))
		pats := [][]*Term{{c.Select(ia, v)}}
		if a.X[1] == b.X[1] {
			pats = append(pats, []*Term{c.Select(ib, v)})
		}
		parts = append(parts, c.Forall([]*Term{v}, body, pats...))
	}
	return c.And(parts...)
}

func isStr(v Val) bool {
	if v.T != nil {
		if b, ok := under(v.T).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return true
		}
	}
	return len(v.X) == 1 && v.X[0].Srt == SStr
}

// mapSame: same_map_except(m1, m2, keys...): m1 now and m2 in the old heap have
// the same entries except at the given keys. Entry values are compared leaf by leaf.
func (e *Eng) mapSame(st *State, n *Env, x *Expr) *Term {
	c := e.c
	a := e.eval(st, n, x.A[0])
	m := *n
	m.heap = n.old
	b := e.eval(st, &m, x.A[1])
	mt := under(a.T).(*types.Map)
	ks := leaves(mt.Key())[0].srt
	v := e.qvar("mk", ks, 91)
	var cs []*Term
	for _, kx := range x.A[2:] {
		k := e.evalT(st, n, kx)
		cs = append(cs, c.Eq(v, k))
	}
	ha, hb := e.mapHas(n.heap, mt, a.X[0], v), e.mapHas(n.old, mt, b.X[0], v)
	eq := []*Term{c.Iff(ha, hb)}
	va, vb := e.mapGetRaw(n.heap, mt, a.X[0], v), e.mapGetRaw(n.old, mt, b.X[0], v)
	for i := range va.X {
		eq = append(eq, c.Imp(ha, c.Eq(va.X[i], vb.X[i])))
	}
	body := c.Or(append(cs, c.And(eq...))...)
	return e.quantOver("forall", v, body)
}
