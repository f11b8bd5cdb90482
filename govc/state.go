package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: the terms of the leaves of its type, or a special
// form known to the executor.
type Val struct {
	T   types.Type // Go type; nil for ghost values
	X   []*Term
	A   *Addr    // address of a non-aggregate location
	Fn  *Closure // known function value
	Tup []Val
	It  int // iterator id + 1
}

// Closure is a known function value.
type Closure struct {
	fn   *ssa.Function
	free []Val
	recv *Val // bound method receiver (for bound method wrappers the free var is used instead)
}

// Addr is the address of a non-aggregate location.
type Addr struct {
	kind string // cell heap elem
	cell int
	key  string
	ref  *Term
	idx  *Term
	T    types.Type // pointee
	own  *Term      // object (for guard checks)
	ownT *types.Named
	fld  string
}

// Unsup is raised on constructs outside the supported subset.
type Unsup struct{ msg string }

func unsup(f string, a ...interface{}) { panic(Unsup{fmt.Sprintf(f, a...)}) }

// State is one symbolic state.
type State struct {
	heap     map[string]*Term
	old      map[string]*Term
	cells    map[int]Val
	iters    map[int]*mapIter
	facts    *Fact
	fset     map[*Term]bool
	held     []*held
	acq      map[string]bool // locks acquired so far
	unshared []unsh
	dyn      map[*Term]Val // closures and addresses hidden in interface or heap terms
	cards    []*Term
	celems   []*Term
	linked   map[string]bool // set pairs related so far (copied on write)
	nalloc   int
	panicv   []panicCtx // stack of panics visible to recover
	hand     *Term      // tokens in hand, per counted object
	handRefs []*Term
	acqRefs  []unsh  // objects locked so far
	given    []*Term // owners of storage that was given away
	depth    int
	steps    int
	trace    []string
	ifaces   map[*Term][]types.Type // interfaces of the repository a value was seen as (copied on write)
}

type panicCtx struct {
	val       Val
	internal  bool
	why       string
	recovered bool
}

type unsh struct {
	ref *Term
	T   *types.Named
}

type held struct {
	ref  *Term
	T    *types.Named
	ts   *TypeSpec
	fld  string
	acq  map[string]*Term // heap at acquisition
	unsh bool
	ro   bool
	mu   *Term
}

type mapIter struct {
	m    *Term
	mt   *types.Map
	dom  *Term // domain at loop start
	vis  *Term // visited keys
	ksrt Sort
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.old = make(map[string]*Term, len(s.old)+4)
	for k, v := range s.old {
		n.old[k] = v
	}
	n.cells = make(map[int]Val, len(s.cells)+4)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.iters = make(map[int]*mapIter, len(s.iters))
	for k, v := range s.iters {
		c := *v
		n.iters[k] = &c
	}
	n.fset = make(map[*Term]bool, len(s.fset)+8)
	for k := range s.fset {
		n.fset[k] = true
	}
	n.acq = make(map[string]bool, len(s.acq))
	for k := range s.acq {
		n.acq[k] = true
	}
	n.dyn = make(map[*Term]Val, len(s.dyn))
	for k, v := range s.dyn {
		n.dyn[k] = v
	}
	n.held = append([]*held(nil), s.held...)
	n.unshared = append([]unsh(nil), s.unshared...)
	n.cards = append([]*Term(nil), s.cards...)
	n.celems = append([]*Term(nil), s.celems...)
	n.linked = s.linked
	n.panicv = append([]panicCtx(nil), s.panicv...)
	n.trace = append([]string(nil), s.trace...)
	n.handRefs = append([]*Term(nil), s.handRefs...)
	n.acqRefs = append([]unsh(nil), s.acqRefs...)
	n.given = append([]*Term(nil), s.given...)
	return &n
}

func newState() *State {
	return &State{heap: map[string]*Term{}, old: map[string]*Term{}, cells: map[int]Val{}, iters: map[int]*mapIter{},
		fset: map[*Term]bool{}, acq: map[string]bool{}, dyn: map[*Term]Val{}}
}

// add records a path fact.
func (e *Eng) add(st *State, t *Term) {
	if t == e.c.T || st.fset[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			e.add(st, a)
		}
		return
	}
	st.fset[t] = true
	d := 1
	if st.facts != nil {
		d = st.facts.depth + 1
	}
	st.facts = &Fact{t, st.facts, d}
}

// ---- type layout ----

type leaf struct {
	suf  string
	srt  Sort
	kind string // int bool str iface flt ref arr off len cap func
	T    types.Type
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isSyncType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

func under(t types.Type) types.Type { return t.Underlying() }

// isAgg reports whether values of type t live at a reference of their own.
func isAgg(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

var leafCache = map[string][]leaf{}

func leaves(t types.Type) []leaf {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool, "bool", t}}
		case u.Info()&types.IsInteger != 0:
			return []leaf{{"", SInt, "int", t}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", SStr, "str", t}}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return []leaf{{"", SFlt, "flt", t}}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []leaf{{"", SInt, "ref", t}}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return []leaf{{"", SInt, "ref", t}}
	case *types.Signature:
		return []leaf{{"", SInt, "func", t}}
	case *types.Interface:
		return []leaf{{"", SIface, "iface", t}}
	case *types.Slice:
		return []leaf{{"@a", SInt, "arr", t}, {"@o", SInt, "off", t}, {"@l", SInt, "len", t}, {"@c", SInt, "cap", t}}
	case *types.Array:
		return []leaf{{"", SInt, "aval", t}}
	case *types.Struct:
		if isSyncType(t) {
			return nil
		}
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, leaf{"." + f.Name() + l.suf, l.srt, l.kind, l.T})
			}
		}
		return out
	case *types.Tuple:
		return nil
	}
	unsup("type %s", t)
	return nil
}

// fieldRange returns the leaf range of field i within the leaves of struct t.
func fieldRange(t types.Type, i int) (lo, hi int) {
	s := under(t).(*types.Struct)
	for k := 0; k < i; k++ {
		lo += len(leaves(s.Field(k).Type()))
	}
	return lo, lo + len(leaves(s.Field(i).Type()))
}

func (e *Eng) zeroLeaf(l leaf) *Term {
	switch l.srt {
	case SInt:
		return e.c.Int(0)
	case SBool:
		return e.c.F
	case SStr:
		return e.c.Lit("")
	case SIface:
		return e.c.NilI()
	case SFlt:
		return e.c.App("flt!0", SFlt)
	}
	panic("zeroLeaf")
}

func (e *Eng) zero(t types.Type) Val {
	v := Val{T: t}
	for _, l := range leaves(t) {
		v.X = append(v.X, e.zeroLeaf(l))
	}
	return v
}

func (e *Eng) fresh(st *State, hint string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, e.fresh(st, hint, tp.At(i).Type()))
		}
		return v
	}
	v := Val{T: t}
	for _, l := range leaves(t) {
		v.X = append(v.X, e.c.Fresh(hint+l.suf, l.srt))
	}
	e.typeFacts(st, v)
	return v
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b := under(t).(*types.Basic)
	bits := uint(64)
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	one := big.NewInt(1)
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

// typeFacts assumes what the type system guarantees about v.
func (e *Eng) typeFacts(st *State, v Val) {
	if v.T == nil || st == nil {
		return
	}
	ls := leaves(v.T)
	for i, l := range ls {
		x := v.X[i]
		if x.bound || x.num != nil {
			continue
		}
		switch l.kind {
		case "int":
			lo, hi := intRange(l.T)
			e.add(st, e.c.Le(e.c.Big(lo), x))
			e.add(st, e.c.Le(x, e.c.Big(hi)))
		case "ref", "func", "arr":
			e.add(st, e.refFact(st, x))
		case "off":
			e.add(st, e.c.Le(e.c.Int(0), x))
			e.add(st, e.c.Le(x, e.c.Big(maxMem)))
		case "len":
			cp := v.X[i+1]
			e.add(st, e.c.Le(e.c.Int(0), x))
			e.add(st, e.c.Le(x, cp))
			e.add(st, e.c.Le(cp, e.c.Big(maxMem)))
			e.add(st, e.c.Imp(e.c.Eq(v.X[i-2], e.c.Int(0)), e.c.Eq(cp, e.c.Int(0))))
		case "iface":
			e.ifaceFacts(st, x, l.T)
		}
	}
}

var maxI64 = big.NewInt(1<<63 - 1)

// maxMem bounds the length and capacity of slices and strings (the gc
// runtime on linux/amd64 cannot allocate more than 2^48 bytes).
var maxMem = big.NewInt(1 << 48)

// refFact: an unknown reference is not one that will be allocated later.
// References from earlier loop iterations live below e.loopFloor.
func (e *Eng) refFact(st *State, x *Term) *Term {
	y := x
	if x.Op == "ival" { // a pointer in an interface value
		y = x.Args[0]
	}
	if e.params[y] {
		return e.c.Le(e.c.Int(0), x)
	}
	if idx := baseIndex(y); idx != nil {
		// what objects hold at entry existed at entry; the object may also be
		// one that a callee has made, of which only its contract tells
		old := e.c.Le(e.c.Int(0), x)
		if idx.num != nil && idx.num.Sign() >= 0 || st.fset[e.c.Le(e.c.Int(0), idx)] {
			return old
		}
		return e.c.And(e.c.Imp(e.c.Le(e.c.Int(0), idx), old), e.refRange(st, x))
	}
	if _, _, ok := e.owner(x); ok {
		return e.c.T
	}
	return e.refRange(st, x)
}

func (e *Eng) refRange(st *State, x *Term) *Term {
	f := e.c.Or(e.c.Le(e.c.Int(int64(-st.nalloc)), x), e.c.Lt(x, e.c.Int(-embBase)))
	if e.loopRegions > 0 {
		return e.c.Or(f, e.c.And(e.c.Lt(e.c.Int(-regionBase*int64(e.loopRegions+1)), x), e.c.Le(x, e.c.Int(-regionBase))))
	}
	return f
}

const (
	regionBase = 1 << 50
	embBase    = 1 << 60
)

// baseIndex is the object that x is loaded from, if it is loaded from the heap
// at entry.
func baseIndex(x *Term) *Term {
	if x.Op != "select" {
		return nil
	}
	a := x
	for a.Args[0].Op == "select" {
		a = a.Args[0]
	}
	if strings.HasPrefix(a.Args[0].Op, "H!") {
		return a.Args[1]
	}
	return nil
}

func (e *Eng) ifaceFacts(st *State, x *Term, t types.Type) {
	c := e.c
	if x.Op == "mkI" && x.Args[0].num != nil {
		return
	}
	e.add(st, c.Le(c.Int(0), c.ITyp(x)))
	e.add(st, c.Imp(c.Eq(c.ITyp(x), c.Int(0)), c.Eq(c.IVal(x), c.Int(0))))
	if it, ok := under(t).(*types.Interface); ok && it.NumMethods() > 0 {
		e.add(st, c.Imp(c.Ne(c.ITyp(x), c.Int(0)), e.impl(st, c.ITyp(x), t)))
	}
}

// ---- heap access ----

func (e *Eng) hget(m map[string]*Term, key string, s Sort) *Term {
	if t, ok := m[key]; ok {
		return t
	}
	return e.c.Const("H!"+key, s)
}

func (e *Eng) heapSort(key string, leafSort Sort) Sort {
	switch key[0] {
	case 'F', 'P', 'G':
		return ArrOf(SInt, leafSort)
	case 'E':
		return ArrOf(SInt, ArrOf(SInt, leafSort))
	}
	panic("heapSort " + key)
}

func structName(t types.Type) string { return typeKey(t) }

// embRef is the reference of an aggregate field inside an object.
func (e *Eng) embRef(t types.Type, fld string, ref *Term) *Term {
	name := "emb!" + structName(t) + "." + fld
	if !e.c.known[san(name)] {
		// injective, and never nil
		v := e.c.Var("x", SInt)
		app := e.c.App(name, SInt, v)
		inv := e.c.App("un"+name, SInt, app)
		e.c.Axiom(e.c.Forall([]*Term{v}, e.c.And(e.c.Eq(inv, v), e.c.Eq(e.c.App("embkind", SInt, app), e.c.Int(int64(e.globalID(name)))),
			e.c.Imp(e.c.Lt(v, e.c.Int(0)), e.c.Lt(app, e.c.Int(-embBase))), e.c.Imp(e.c.Le(e.c.Int(0), v), e.c.Le(e.c.Int(0), app)), e.c.Imp(e.c.Lt(e.c.Int(0), v), e.c.Lt(e.c.Int(0), app))), []*Term{app}))
	}
	return e.c.App(name, SInt, ref)
}

func (e *Eng) owner(t *Term) (ref *Term, fld string, ok bool) {
	if strings.HasPrefix(t.Op, "emb!") {
		i := strings.LastIndex(t.Op, ".")
		return t.Args[0], t.Op[i+1:], true
	}
	return nil, "", false
}

// loadRef loads a whole aggregate value at ref from heap m.
func (e *Eng) loadRef(st *State, m map[string]*Term, t types.Type, ref *Term) Val {
	v := Val{T: t}
	switch u := under(t).(type) {
	case *types.Struct:
		if isSyncType(t) {
			return v
		}
		for i := 0; i < u.NumFields(); i++ {
			v.X = append(v.X, e.loadField(st, m, t, i, ref).X...)
		}
	case *types.Array:
		v.X = []*Term{e.c.App("aval!"+typeKey(t), SInt, ref)}
	}
	return v
}

func (e *Eng) loadField(st *State, m map[string]*Term, t types.Type, i int, ref *Term) Val {
	s := under(t).(*types.Struct)
	f := s.Field(i)
	if isAgg(f.Type()) {
		return e.loadRef(st, m, f.Type(), e.embRef(t, f.Name(), ref))
	}
	return e.loadKey(st, m, "F:"+structName(t)+"."+f.Name(), f.Type(), ref)
}

func (e *Eng) loadKey(st *State, m map[string]*Term, key string, t types.Type, ref *Term) Val {
	e.keyType[key] = t
	v := Val{T: t}
	for _, l := range leaves(t) {
		k := key + l.suf
		h := e.hget(m, k, e.heapSort(k, l.srt))
		v.X = append(v.X, e.c.Select(h, ref))
	}
	e.typeFacts(st, v)
	e.attachDyn(st, &v)
	return v
}

func (e *Eng) attachDyn(st *State, v *Val) {
	if st == nil || len(v.X) != 1 {
		return
	}
	if d, ok := st.dyn[v.X[0]]; ok {
		if d.Fn != nil {
			v.Fn = d.Fn
		}
		if d.A != nil {
			v.A = d.A
		}
	}
}

func (e *Eng) storeKey(st *State, key string, t types.Type, ref *Term, v Val) {
	e.reify(st, &v)
	e.keyType[key] = t
	for i, l := range leaves(t) {
		k := key + l.suf
		h := e.hget(st.heap, k, e.heapSort(k, l.srt))
		st.heap[k] = e.c.Store(h, ref, v.X[i])
	}
}

// reify gives an executor-level value (closure, address) a term.
func (e *Eng) reify(st *State, v *Val) {
	if (v.Fn != nil || v.A != nil) && len(v.X) == 0 {
		x := e.newRef(st)
		v.X = []*Term{x}
	}
	if v.Fn != nil || v.A != nil {
		st.dyn[v.X[0]] = *v
	}
}

func (e *Eng) storeField(st *State, t types.Type, i int, ref *Term, v Val) {
	s := under(t).(*types.Struct)
	f := s.Field(i)
	if isAgg(f.Type()) {
		e.storeRef(st, f.Type(), e.embRef(t, f.Name(), ref), v)
		return
	}
	e.storeKey(st, "F:"+structName(t)+"."+f.Name(), f.Type(), ref, v)
}

func (e *Eng) storeRef(st *State, t types.Type, ref *Term, v Val) {
	switch u := under(t).(type) {
	case *types.Struct:
		if isSyncType(t) {
			return
		}
		lo := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(leaves(u.Field(i).Type()))
			e.storeField(st, t, i, ref, Val{T: u.Field(i).Type(), X: v.X[lo : lo+n]})
			lo += n
		}
	case *types.Array:
		// whole-array assignment: only the zero value is modelled exactly
		isZero := len(v.X) == 1 && v.X[0].num != nil && v.X[0].num.Sign() == 0
		for _, l := range leaves(u.Elem()) {
			k := "E:" + typeKey(u.Elem()) + l.suf
			h := e.hget(st.heap, k, e.heapSort(k, l.srt))
			var in *Term
			if isZero {
				in = e.c.ConstArr(ArrOf(SInt, l.srt), e.zeroLeaf(l))
			} else {
				in = e.c.Fresh("arrv", ArrOf(SInt, l.srt))
			}
			st.heap[k] = e.c.Store(h, ref, in)
		}
	}
}

// newRef allocates a reference.
func (e *Eng) newRef(st *State) *Term {
	st.nalloc++
	return e.c.Int(int64(-st.nalloc))
}

func (e *Eng) elemLoad(st *State, m map[string]*Term, key string, t types.Type, arr, idx *Term) Val {
	e.keyType[key] = t
	v := Val{T: t}
	for _, l := range leaves(t) {
		k := key + l.suf
		h := e.hget(m, k, e.heapSort(k, l.srt))
		v.X = append(v.X, e.c.Select(e.c.Select(h, arr), idx))
	}
	e.typeFacts(st, v)
	e.attachDyn(st, &v)
	return v
}

func (e *Eng) elemStore(st *State, key string, t types.Type, arr, idx *Term, v Val) {
	e.reify(st, &v)
	e.keyType[key] = t
	for i, l := range leaves(t) {
		k := key + l.suf
		h := e.hget(st.heap, k, e.heapSort(k, l.srt))
		st.heap[k] = e.c.Store(h, arr, e.c.Store(e.c.Select(h, arr), idx, v.X[i]))
	}
}

// load reads the location addressed by pointer value p.
func (e *Eng) load(st *State, p Val) Val {
	pt, ok := under(p.T).(*types.Pointer)
	if !ok {
		unsup("load through %s", p.T)
	}
	t := pt.Elem()
	if p.A == nil {
		if isAgg(t) {
			return e.loadRef(st, st.heap, t, p.X[0])
		}
		return e.loadKey(st, st.heap, "P:"+typeKey(t), t, p.X[0])
	}
	a := p.A
	switch a.kind {
	case "cell":
		v, ok := st.cells[a.cell]
		if !ok {
			unsup("dangling cell")
		}
		return v
	case "global":
		return e.globalLoad(st, a)
	case "heap":
		e.guard(st, a, false)
		return e.loadKey(st, st.heap, a.key, t, a.ref)
	case "elem":
		return e.elemLoad(st, st.heap, a.key, t, a.ref, a.idx)
	}
	panic("load")
}

// store writes the location addressed by pointer value p.
func (e *Eng) store(st *State, p Val, v Val) {
	t := under(p.T).(*types.Pointer).Elem()
	if p.A == nil {
		if isAgg(t) {
			e.storeRef(st, t, p.X[0], v)
			return
		}
		e.storeKey(st, "P:"+typeKey(t), t, p.X[0], v)
		return
	}
	a := p.A
	switch a.kind {
	case "cell":
		v.T = t
		st.cells[a.cell] = v
	case "heap":
		e.guard(st, a, true)
		e.storeKey(st, a.key, t, a.ref, v)
	case "elem":
		e.wperm(st, a.key, a.ref)
		e.elemStore(st, a.key, t, a.ref, a.idx, v)
	}
}

// ---- interfaces ----

func (e *Eng) tag(t types.Type) *Term {
	k := typeKey(t)
	if id, ok := e.tags[k]; ok {
		return e.c.Int(int64(id))
	}
	id := len(e.tags) + 1
	e.tags[k] = id
	e.tagT[id] = t
	return e.c.Int(int64(id))
}

// impl is the formula "the dynamic type with this tag implements it".
func (e *Eng) impl(st *State, tag *Term, it types.Type) *Term {
	iface := under(it).(*types.Interface)
	if iface.NumMethods() == 0 {
		return e.c.Ne(tag, e.c.Int(0))
	}
	if tag.num != nil {
		id := int(tag.num.Int64())
		if id == 0 {
			return e.c.F
		}
		if t, ok := e.tagT[id]; ok {
			return e.c.Bool(types.Implements(t, iface))
		}
	}
	// one predicate per method, so that interfaces relate as their method sets do
	var cs []*Term
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		k := "impl!" + m.Id() + types.TypeString(m.Type(), nil)
		if _, ok := e.ifaces[k]; !ok {
			e.ifaces[k] = types.NewInterfaceType([]*types.Func{m}, nil).Complete()
		}
		cs = append(cs, e.c.App(k, SBool, tag))
	}
	e.implFacts(st)
	return e.c.And(cs...)
}

// implFacts states for all known concrete types which interfaces they implement.
func (e *Eng) implFacts(st *State) {
	for _, k := range sortedKeys(e.ifaces) {
		it := e.ifaces[k]
		iface := under(it).(*types.Interface)
		for id := 1; id <= len(e.tags); id++ {
			key := fmt.Sprintf("%s/%d", k, id)
			if e.implDone[key] {
				continue
			}
			e.implDone[key] = true
			a := e.c.App(k, SBool, e.c.Int(int64(id)))
			if !types.Implements(e.tagT[id], iface) {
				a = e.c.Not(a)
			}
			e.c.Axiom(a)
		}
	}
}

// mkIface converts a concrete value to an interface value.
func (e *Eng) mkIface(st *State, v Val) *Term {
	if len(v.X) == 1 && v.X[0].Srt == SIface && (v.T == nil || types.IsInterface(v.T)) {
		return v.X[0]
	}
	e.reify(st, &v)
	tg := e.tag(v.T)
	e.implFacts(st)
	ls := leaves(v.T)
	if len(ls) == 1 && ls[0].srt == SInt {
		return e.c.MkI(tg, v.X[0])
	}
	box := e.c.App("box!"+typeKey(v.T), SInt, v.X...)
	for i, l := range ls {
		e.add(st, e.c.Eq(e.c.App(fmt.Sprintf("unbox!%s!%d", typeKey(v.T), i), l.srt, box), v.X[i]))
	}
	return e.c.MkI(tg, box)
}

// unbox extracts the concrete value of type t from interface term x.
func (e *Eng) unbox(st *State, x *Term, t types.Type) Val {
	ls := leaves(t)
	iv := e.c.IVal(x)
	v := Val{T: t}
	if len(ls) == 1 && ls[0].srt == SInt {
		v.X = []*Term{iv}
	} else if strings.HasPrefix(iv.Op, "box!") && iv.Op == san("box!"+typeKey(t)) {
		v.X = append(v.X, iv.Args...)
	} else {
		for i, l := range ls {
			v.X = append(v.X, e.c.App(fmt.Sprintf("unbox!%s!%d", typeKey(t), i), l.srt, iv))
		}
	}
	e.typeFacts(st, v)
	e.attachDyn(st, &v)
	return v
}
