package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// This file treats mutexes as monitors: the fields of a struct type with a
// declared lock belong to the lock, the declared invariants hold whenever it
// is free, and other goroutines may change everything it protects while it is
// free.

func (e *Eng) globalLoad(st *State, a *Addr) Val {
	v := Val{T: a.T}
	for _, l := range leaves(a.T) {
		kk := "G:" + a.key + l.suf
		v.X = append(v.X, e.c.Select(e.hget(st.heap, kk, e.heapSort(kk, l.srt)), e.c.Int(0)))
	}
	e.typeFacts(st, v)
	return v
}

// lockOwner finds the object a mutex address belongs to.
func (e *Eng) lockOwner(mu *Term) (ref *Term, T *types.Named, ts *TypeSpec, fld string) {
	r, f, ok := e.owner(mu)
	if !ok {
		return mu, nil, nil, ""
	}
	name := mu.Op[len("emb!"):]
	name = name[:strings.LastIndex(name, ".")]
	t := e.resolveType(name, nil)
	n, _ := t.(*types.Named)
	if n == nil {
		return mu, nil, nil, f
	}
	ts = e.S.Types[typeKey(n)]
	if ts != nil && ts.Lock != f {
		ts = nil
	}
	return r, n, ts, f
}

func (e *Eng) isUnshared(st *State, ref *Term) bool {
	for _, u := range st.unshared {
		if u.ref == ref {
			return true
		}
	}
	return false
}

func (e *Eng) selfEnv(st *State, ref *Term, T *types.Named) *Env {
	return &Env{vars: map[string]Val{"self": {T: types.NewPointer(T), X: []*Term{ref}}}, heap: st.heap, old: st.heap, pkg: T.Obj().Pkg()}
}

func isIn(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// guardedKeys lists the heap keys (with sorts) of the fields protected by the
// object's own lock (not constant, not joint).
func (e *Eng) guardedKeys(T *types.Named, ts *TypeSpec) (keys []string, ls []leaf) {
	s := under(T).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == ts.Lock || isIn(ts.Const, f.Name()) || isIn(ts.Joint, f.Name()) || isAgg(f.Type()) {
			continue
		}
		for _, l := range leaves(f.Type()) {
			keys = append(keys, "F:"+typeKey(T)+"."+f.Name()+l.suf)
			ls = append(ls, l)
		}
	}
	for _, g := range ts.Ghost {
		if isIn(ts.Joint, g.Name) || isIn(ts.Joint, "$"+g.Name) {
			continue
		}
		keys = append(keys, "F:"+typeKey(T)+".$"+g.Name)
		ls = append(ls, leaf{srt: g.Sort, kind: "ghost"})
	}
	return
}

// jointKeys lists the keys of the joint fields of the body type bt.
func (e *Eng) jointKeys(bt *types.Named, bs *TypeSpec) (keys []string, srts []Sort) {
	s := under(bt).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !isIn(bs.Joint, f.Name()) {
			continue
		}
		for _, l := range leaves(f.Type()) {
			keys = append(keys, "F:"+typeKey(bt)+"."+f.Name()+l.suf)
			srts = append(srts, l.srt)
		}
	}
	for _, g := range bs.Ghost {
		if isIn(bs.Joint, g.Name) || isIn(bs.Joint, "$"+g.Name) {
			keys = append(keys, "F:"+typeKey(bt)+".$"+g.Name)
			srts = append(srts, g.Sort)
		}
	}
	return
}

// bodiesOf returns the type whose objects attach to the common type T.
func (e *Eng) bodiesOf(T *types.Named) (*types.Named, *TypeSpec) {
	for _, k := range sortedKeys(e.S.Types) {
		bs := e.S.Types[k]
		if len(bs.Joint) == 0 {
			continue
		}
		bt, _ := e.resolveType(k, nil).(*types.Named)
		if bt == nil {
			continue
		}
		s := under(bt).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != bs.Via {
				continue
			}
			if p, ok := under(s.Field(i).Type()).(*types.Pointer); ok && types.Identical(p.Elem(), T) {
				return bt, bs
			}
		}
	}
	return nil, nil
}

// strip removes stores at unshared or held references.
func (e *Eng) strip(st *State, t *Term) *Term {
	for t.Op == "store" {
		ok := e.isUnshared(st, t.Args[1])
		for _, h := range st.held {
			if h.ref == t.Args[1] {
				ok = true
			}
		}
		if !ok {
			break
		}
		t = t.Args[0]
	}
	return t
}

func (e *Eng) lock(st *State, mu *Term, ro bool, pos token.Pos) []Outcome {
	c := e.c
	ref, T, ts, fld := e.lockOwner(mu)
	at := e.pos(pos)
	c12 := []string{"C12"}
	for _, h := range st.held {
		if h.mu == mu {
			e.prove(st, c.F, "no-self-deadlock", c12, "mutex locked twice at "+at)
			return nil
		}
		if T != nil && h.T != nil && types.Identical(h.T, T) && h.fld == fld {
			e.prove(st, c.Ne(ref, h.ref), "no-self-deadlock", c12, "mutex locked twice at "+at)
		}
		r1, r2 := 0, 0
		if ts != nil {
			r1 = ts.Rank
		}
		if h.ts != nil {
			r2 = h.ts.Rank
		}
		un := h.unsh || e.isUnshared(st, ref)
		e.prove(st, c.Bool(un || r2 < r1), "lock-order", c12, "lock order at "+at)
	}
	h := &held{ref: ref, T: T, ts: ts, fld: fld, ro: ro, mu: mu}
	if ts == nil {
		st.held = append(st.held, h)
		return []Outcome{{st: st}}
	}
	if e.isUnshared(st, ref) {
		h.unsh = true
		st.held = append(st.held, h)
		return []Outcome{{st: st}}
	}
	first := true
	for _, a := range st.acqRefs {
		if types.Identical(a.T, T) && !c.distinctSyn(a.ref, ref) {
			first = false
		}
	}
	st.acqRefs = append(st.acqRefs, unsh{ref, T})
	keys, ls := e.guardedKeys(T, ts)
	for i, k := range keys {
		srt := ArrOf(SInt, ls[i].srt)
		cur, o := c.Select(e.hget(st.heap, k, srt), ref), c.Select(e.hget(st.old, k, srt), ref)
		if first && cur == o {
			continue
		}
		f := c.Fresh("mon", ls[i].srt)
		st.heap[k] = c.Store(e.hget(st.heap, k, srt), ref, f)
		if first {
			st.old[k] = c.Store(e.hget(st.old, k, srt), ref, f)
		}
	}
	// type facts of the fields
	s := under(T).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !isAgg(f.Type()) && f.Name() != ts.Lock {
			e.loadField(st, st.heap, T, i, ref)
		}
	}
	if bt, bs := e.bodiesOf(T); bt != nil {
		ks, ss := e.jointKeys(bt, bs)
		for i, k := range ks {
			srt := ArrOf(SInt, ss[i])
			hp := e.hget(st.heap, k, srt)
			if first && e.strip(st, hp) == e.strip(st, e.hget(st.old, k, srt)) {
				continue
			}
			f := c.Fresh("joint", srt)
			keep := func(m map[string]*Term) *Term {
				cur := e.hget(m, k, srt)
				n := f
				for _, u := range st.unshared {
					n = c.Store(n, u.ref, c.Select(cur, u.ref))
				}
				for _, x := range st.held {
					n = c.Store(n, x.ref, c.Select(cur, x.ref))
				}
				return n
			}
			nh := keep(st.heap)
			if first {
				st.old[k] = keep(st.old)
			}
			st.heap[k] = nh
		}
		// maps of the common are re-read as well
		for i := 0; i < s.NumFields(); i++ {
			if mt, ok := under(s.Field(i).Type()).(*types.Map); ok && !first {
				m := e.loadField(st, st.heap, T, i, ref)
				e.havocMap(st, mt, m.X[0])
			}
		}
	}
	if !first {
		for _, g := range ts.Env {
			srt := e.S.Ghosts[g]
			st.heap["$"+g] = c.Fresh("env!"+g, srt)
		}
		if len(ts.Owns) > 0 {
			k := "E:byte"
			hp := e.hget(st.heap, k, e.heapSort(k, SInt))
			f := c.Fresh("owned", hp.Srt)
			v := e.qvar("ow", SInt, 95)
			own := c.And(c.Eq(c.Select(e.okind(st.heap), v), c.Int(3)), c.Eq(c.Select(e.oref(st.heap), v), ref))
			e.add(st, c.Forall([]*Term{v}, c.Or(own, c.Eq(c.Select(f, v), c.Select(hp, v))), []*Term{c.Select(f, v)}))
			st.heap[k] = f
		}
	}
	h.acq = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		h.acq[k] = v
	}
	st.held = append(st.held, h)
	e.noteElem(st, ref, T)
	n := e.selfEnv(st, ref, T)
	for _, iv := range ts.Inv {
		e.add(st, e.evalB(st, n, iv.E))
	}
	for _, b := range ts.Bound {
		e.assume("assumed of every " + ts.Name + ": " + b.Src)
		e.add(st, e.evalB(st, n, b.E))
	}
	for _, o := range e.ownInv(st, ref, T, ts) {
		e.add(st, o)
	}
	if e.aud != nil && e.mute == 0 {
		for _, iv := range ts.Inv {
			e.audClause(st, n, iv)
		}
		e.audCall("invariant of "+ts.Name, e.fnKey, false, e.audDead(st))
	}
	if ts.Token != "" {
		tok := e.tokenVal(st, st.heap, T, ts, ref)
		e.add(st, c.Le(c.Select(e.handT(st), ref), tok))
		e.noteHand(st, ref)
	}
	if ts.Holds != "" {
		e.addHand(st, n, ts, 1)
	}
	return []Outcome{{st: st}}
}

func (e *Eng) handT(st *State) *Term {
	if st.hand == nil {
		st.hand = e.c.ConstArr(ArrOf(SInt, SInt), e.c.Int(0))
	}
	return st.hand
}

func (e *Eng) noteHand(st *State, ref *Term) {
	for _, r := range st.handRefs {
		if r == ref {
			return
		}
	}
	st.handRefs = append(st.handRefs, ref)
}

func (e *Eng) tokenVal(st *State, m map[string]*Term, T *types.Named, ts *TypeSpec, ref *Term) *Term {
	s := under(T).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == ts.Token {
			return e.loadField(nil, m, T, i, ref).X[0]
		}
	}
	unsup("type %s has no field %s", T, ts.Token)
	return nil
}

// addHand adds sign * (token held by the object) to the tokens in hand.
func (e *Eng) addHand(st *State, n *Env, ts *TypeSpec, sign int64) {
	c := e.c
	x, err := parseExpr("self."+ts.Holds, ts.Line)
	if err != nil {
		unsup("%v", err)
	}
	tgt := e.evalT(st, n, x)
	w := e.evalB(st, n, ts.When)
	if w == c.F {
		return
	}
	d := c.Ite(w, c.Int(sign), c.Int(0))
	hd := e.handT(st)
	nv := c.Add(c.Select(hd, tgt), d)
	st.hand = c.Store(hd, tgt, nv)
	e.noteHand(st, tgt)
	if sign < 0 {
		e.prove(st, c.Le(c.Int(0), nv), "reference-count", []string{"C10"}, "a handle holds a reference it has counted")
	}
}

// attachAll updates the ghost attachment of the bodies this goroutine may
// change to what the map of the common object says.
func (e *Eng) attachAll(st *State, ref *Term, T *types.Named, ts *TypeSpec) {
	c := e.c
	bt, _ := e.bodiesOf(T)
	if bt == nil {
		return
	}
	s := under(T).(*types.Struct)
	var mv Val
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == ts.Attach {
			mv = e.loadField(st, st.heap, T, i, ref)
		}
	}
	if mv.T == nil {
		unsup("type %s has no field %s", T, ts.Attach)
	}
	mt, ok := under(mv.T).(*types.Map)
	if !ok {
		unsup("%s.%s is not a map", T, ts.Attach)
	}
	k := "F:" + typeKey(bt) + ".$att"
	srt := ArrOf(SInt, SInt)
	upd := func(b *Term) {
		cur := e.hget(st.heap, k, srt)
		a := c.Select(cur, b)
		has := e.mapHas(st.heap, mt, mv.X[0], b)
		nv := c.Ite(has, ref, c.Ite(c.Eq(a, ref), c.Int(0), a))
		if nv.Op == "ite" {
			f := c.Fresh("att", SInt)
			e.add(st, c.Eq(f, nv))
			nv = f
		}
		st.heap[k] = c.Store(cur, b, nv)
		e.noteElem(st, b, bt)
	}
	for _, u := range st.unshared {
		if types.Identical(u.T, bt) {
			upd(u.ref)
		}
	}
	for _, h := range st.held {
		if h.T != nil && types.Identical(h.T, bt) && !h.unsh {
			upd(h.ref)
		}
	}
}

func (e *Eng) unlock(st *State, mu *Term, pos token.Pos) {
	c := e.c
	at := e.pos(pos)
	idx := -1
	for i, h := range st.held {
		if h.mu == mu {
			idx = i
		}
	}
	if idx < 0 {
		e.prove(st, c.F, "unlock-held", []string{"C12"}, "unlock of a mutex that is not locked at "+at)
		return
	}
	h := st.held[idx]
	if h.ts != nil && !h.unsh {
		if h.ts.Attach != "" {
			e.attachAll(st, h.ref, h.T, h.ts)
		}
		e.transfer(st, h.ref, h.T, h.ts)
		n := e.selfEnv(st, h.ref, h.T)
		e.proveOwn(st, h.ref, h.T, h.ts)
		for _, iv := range h.ts.Inv {
			e.prove(st, e.evalB(st, n, iv.E), "invariant:"+h.ts.Name+":"+iv.Label, e.tagsOr(iv.Tags), "invariant "+iv.Src+" when the lock is released at "+at)
		}
		if h.ts.Token != "" {
			d := c.Sub(e.tokenVal(st, st.heap, h.T, h.ts, h.ref), e.tokenVal(st, h.acq, h.T, h.ts, h.ref))
			hd := e.handT(st)
			nv := c.Add(c.Select(hd, h.ref), d)
			if d != c.Int(0) {
				st.hand = c.Store(hd, h.ref, nv)
				e.prove(st, c.Le(c.Int(0), nv), "reference-count", []string{"C10"}, "the reference count is lowered only by its holder at "+at)
			}
		}
		if h.ts.Holds != "" {
			e.addHand(st, n, h.ts, -1)
		}
	}
	st.held = append(append([]*held(nil), st.held[:idx]...), st.held[idx+1:]...)
}

// guard checks an access to a field of a type with a lock.
func (e *Eng) guard(st *State, a *Addr, write bool) {
	if a.ownT == nil {
		return
	}
	ts := e.S.Types[typeKey(a.ownT)]
	if ts == nil || ts.Lock == "" {
		return
	}
	c := e.c
	if e.isUnshared(st, a.own) {
		return
	}
	c12 := []string{"C12"}
	what := "read"
	if write {
		what = "write"
	}
	desc := fmt.Sprintf("%s of %s.%s", what, typeKey(a.ownT), a.fld)
	if isIn(ts.Const, a.fld) {
		if write {
			e.prove(st, c.F, "guarded:"+a.fld, c12, desc+" after construction")
		}
		return
	}
	var own []*Term
	for _, h := range st.held {
		if h.T != nil && types.Identical(h.T, a.ownT) && !(write && h.ro) && h.ts != nil {
			own = append(own, c.Eq(h.ref, a.own))
		}
	}
	for _, u := range st.unshared {
		if types.Identical(u.T, a.ownT) {
			own = append(own, c.Eq(u.ref, a.own))
		}
	}
	goal := c.Or(own...)
	if isIn(ts.Joint, a.fld) {
		att := c.Select(e.hget(st.heap, "F:"+typeKey(a.ownT)+".$att", ArrOf(SInt, SInt)), a.own)
		var com []*Term
		for _, h := range st.held {
			if h.ts != nil && h.ts.Attach != "" && !(write && h.ro) {
				com = append(com, c.Eq(h.ref, att))
			}
		}
		if write {
			goal = c.And(goal, c.Or(append(com, c.Eq(att, c.Int(0)))...))
		} else {
			goal = c.Or(append(own, com...)...)
		}
	}
	e.prove(st, goal, "guarded:"+a.fld, c12, desc+" under its lock")
}

// reachable computes which fresh references are reachable from the results
// or from older objects.
func (e *Eng) reachable(st *State, res []Val) map[*Term]bool {
	R := map[*Term]bool{}
	seen := map[*Term]bool{}
	var coll func(t *Term)
	coll = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.num != nil && t.num.Sign() < 0 && t.num.IsInt64() && t.num.Int64() >= -int64(st.nalloc) {
			R[t] = true
		}
		for _, a := range t.Args {
			coll(a)
		}
	}
	var val func(v Val)
	val = func(v Val) {
		for _, x := range v.X {
			coll(x)
			if d, ok := st.dyn[x]; ok {
				_ = d
			}
		}
		if v.Fn != nil {
			for _, f := range v.Fn.free {
				val(f)
			}
		}
		for _, t := range v.Tup {
			val(t)
		}
	}
	for _, r := range res {
		val(r)
	}
	for {
		n := len(R)
		for k, h := range st.heap {
			if k == "okind" || k == "oref" {
				continue
			}
			t := h
			for t.Op == "store" {
				ref := t.Args[1]
				fresh := ref.num != nil && ref.num.Sign() < 0
				if o, _, ok := e.owner(ref); ok && o.num != nil && o.num.Sign() < 0 {
					fresh = true
					ref = o
				}
				if !fresh || R[ref] {
					coll(t.Args[2])
				}
				t = t.Args[0]
			}
		}
		if len(R) == n {
			return R
		}
	}
}

// publish checks the invariants of the new objects that others can reach when
// the function returns.
func (e *Eng) publish(st *State, res []Val) {
	R := e.reachable(st, res)
	c := e.c
	var pub []unsh
	for pass := 0; pass < 2; pass++ {
		for _, u := range st.unshared {
			ts := e.S.Types[typeKey(u.T)]
			if !R[u.ref] || ts == nil {
				continue
			}
			common := ts.Token != "" || ts.Attach != ""
			if common == (pass == 0) {
				pub = append(pub, u)
			}
		}
	}
	for _, u := range pub {
		ts := e.S.Types[typeKey(u.T)]
		if ts.Attach != "" {
			e.attachAll(st, u.ref, u.T, ts)
		}
	}
	for _, u := range pub {
		ts := e.S.Types[typeKey(u.T)]
		e.transfer(st, u.ref, u.T, ts)
		n := e.selfEnv(st, u.ref, u.T)
		e.proveOwn(st, u.ref, u.T, ts)
		for _, iv := range ts.Inv {
			e.prove(st, e.evalB(st, n, iv.E), "invariant:"+ts.Name+":"+iv.Label, e.tagsOr(iv.Tags), "invariant "+iv.Src+" of a new object")
		}
		if ts.Token != "" {
			hd := e.handT(st)
			st.hand = c.Store(hd, u.ref, c.Add(c.Select(hd, u.ref), e.tokenVal(st, st.heap, u.T, ts, u.ref)))
			e.noteHand(st, u.ref)
		}
		if ts.Holds != "" {
			e.addHand(st, n, ts, -1)
		}
	}
}

// locksFree checks that nothing is left locked and no token is left over.
func (e *Eng) locksFree(st *State, how string) {
	for _, h := range st.held {
		nm := h.fld
		if h.T != nil {
			nm = typeKey(h.T) + "." + h.fld
		}
		e.prove(st, e.c.F, "unlocked-at-exit", []string{"C12"}, nm+" is still locked on "+how)
	}
	if len(st.held) == 0 {
		e.prove(st, e.c.T, "unlocked-at-exit", []string{"C12"}, "all locks are released on "+how)
	}
	for _, r := range st.handRefs {
		e.prove(st, e.c.Eq(e.c.Select(e.handT(st), r), e.c.Int(0)), "reference-count", []string{"C10"}, "every counted reference belongs to a handle on "+how)
	}
}

func (e *Eng) fieldOf(st *State, T *types.Named, name string, ref *Term) Val {
	s := under(T).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.loadField(st, st.heap, T, i, ref)
		}
	}
	unsup("type %s has no field %s", T, name)
	return Val{}
}

// transfer gives storage allocated by this goroutine to the object whose
// field now refers to it.
func (e *Eng) transfer(st *State, ref *Term, T *types.Named, ts *TypeSpec) {
	c := e.c
	give := func(fld string, kind int64) {
		v := e.fieldOf(st, T, fld, ref)
		k := c.Select(e.okind(st.heap), v.X[0])
		loc := c.Eq(k, c.Int(2))
		if kind == 1 && k.num != nil && k.num.Int64() == 3 {
			// storage of a buffer made here, which must not touch it any more
			o := c.Select(e.oref(st.heap), v.X[0])
			if own := c.And(c.Lt(o, c.Int(0)), e.noInvOwner(st, o)); !e.feasible(st, c.Not(own)) {
				st.given = append(st.given, o)
				st.heap["okind"] = c.Store(e.okind(st.heap), v.X[0], c.Int(1))
			}
			return
		}
		if loc == c.F {
			return
		}
		st.heap["okind"] = c.Store(e.okind(st.heap), v.X[0], c.Ite(loc, c.Int(kind), k))
		o := c.Select(e.oref(st.heap), v.X[0])
		st.heap["oref"] = c.Store(e.oref(st.heap), v.X[0], c.Ite(loc, ref, o))
	}
	for _, f := range ts.Owns {
		give(f, 3)
	}
	for _, f := range ts.Immut {
		give(f, 1)
	}
}

func (e *Eng) ownInv(st *State, ref *Term, T *types.Named, ts *TypeSpec) []*Term {
	c := e.c
	var out []*Term
	for _, f := range ts.Owns {
		v := e.fieldOf(st, T, f, ref)
		out = append(out, c.Or(c.Eq(v.X[3], c.Int(0)), c.And(c.Eq(c.Select(e.okind(st.heap), v.X[0]), c.Int(3)), c.Eq(c.Select(e.oref(st.heap), v.X[0]), ref))))
	}
	for _, f := range ts.Immut {
		v := e.fieldOf(st, T, f, ref)
		out = append(out, c.Or(c.Eq(v.X[2], c.Int(0)), c.Eq(c.Select(e.okind(st.heap), v.X[0]), c.Int(1))))
	}
	return out
}

func (e *Eng) proveOwn(st *State, ref *Term, T *types.Named, ts *TypeSpec) {
	for _, t := range e.ownInv(st, ref, T, ts) {
		e.prove(st, t, "storage-ownership:"+ts.Name, e.defTags(), "the storage of "+ts.Name+" belongs to it alone (or to nobody that writes it)")
	}
}
