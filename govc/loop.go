package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loops are verified with inductive invariants. Candidate invariants are
// generated from the shape of the loop state and from the loop clauses of the
// contract; the largest inductive subset is computed by dropping every
// candidate that does not hold on entry or is not preserved (Houdini). Only
// candidates proved inductive are used.

type loopCtx struct {
	analysis bool
	unroll   bool
	body     map[*ssa.BasicBlock]bool
	backs    []backState
}

type backState struct {
	st *State
	fr *Frame
}

func (lc *loopCtx) back(st *State, fr *Frame) { lc.backs = append(lc.backs, backState{st, fr}) }

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// loopBody returns the blocks of the natural loop with header blk.
func (e *Eng) loopBody(fn *ssa.Function, blk *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	gidMu.Lock()
	defer gidMu.Unlock()
	m, ok := loopCache[fn]
	if !ok {
		m = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			for _, s := range b.Succs {
				if s.Dominates(b) {
					body := m[s]
					if body == nil {
						body = map[*ssa.BasicBlock]bool{s: true}
						m[s] = body
					}
					work := []*ssa.BasicBlock{b}
					for len(work) > 0 {
						x := work[len(work)-1]
						work = work[:len(work)-1]
						if body[x] {
							continue
						}
						body[x] = true
						work = append(work, x.Preds...)
					}
				}
			}
		}
		loopCache[fn] = m
	}
	return m[blk]
}

type heapMod struct {
	whole bool
	local bool    // also locations of memory allocated by this function before the loop (see localRegion)
	emb   bool    // also memory embedded in objects allocated in the loop
	tried bool    // tighten has been tried
	refs  []*Term // targeted first-level indices
	owned []*Term // also the byte storage these objects own
}

type loopMods struct {
	phis  map[*ssa.Phi]bool
	cells map[int]bool
	heap  map[string]*heapMod
	iters map[int]bool
	alloc bool
}

type cand struct {
	name string
	f    func(st *State, fr *Frame) *Term
	dead bool
	tmpl bool // from a loop clause of the contract

	slots int // free slots of that clause
}

// loopState is everything needed while one loop is verified.
type loopState struct {
	blk     *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	phis    []*ssa.Phi
	entSt   *State
	entFr   *Frame
	mods    loopMods
	nalloc0 int
	mark    int
	level   int // regions of memory from earlier iterations already in use
	inv     map[*Term]bool
	maps    []func(st *State, fr *Frame) Val
	ptrs    []func(st *State, fr *Frame) Val
	arrays  []Val // slices at loop entry
}

func (e *Eng) loop(st *State, fr *Frame, blk, from *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []Outcome {
	e.phis(st, fr, blk, from)
	if e.counted(st, fr, blk, body) {
		// a few iterations, known in number: executed one by one
		fr.loops[blk] = &loopCtx{body: body, unroll: true}
		return e.instrs(st, fr, blk, 0)
	}
	ls := &loopState{blk: blk, body: body, nalloc0: st.nalloc, mark: e.c.maxID(), level: e.loopRegions, inv: map[*Term]bool{}}
	for _, in := range blk.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			ls.phis = append(ls.phis, ph)
		}
	}
	ls.mods = loopMods{phis: map[*ssa.Phi]bool{}, cells: map[int]bool{}, heap: map[string]*heapMod{}, iters: map[int]bool{}}
	ls.entSt, ls.entFr = st.clone(), fr.clone()
	e.mute++
	tLoop := time.Now()
	lap := func(what string) {
		if debugLap {
			fmt.Fprintf(os.Stderr, "%s loop %s depth %d %s %.2fs\n", time.Now().Format("05.000"), e.pos(loopPos(blk)), e.mute, what, time.Since(tLoop).Seconds())
			tLoop = time.Now()
		}
	}
	// write set
	for round := 0; ; round++ {
		if round > 12 {
			e.mute--
			unsup("loop analysis does not settle at %s", e.pos(loopPos(blk)))
		}
		lc := e.runBody(ls, nil)
		if !e.growMods(ls, lc) {
			break
		}
	}
	lap("write set")
	// inductive subset of the candidates
	cands := e.candidates(ls)
	if e.cfg.verbose {
		e.logf("loop at %s: %d candidates, mods %s", e.pos(loopPos(blk)), len(cands), ls.mods.String())
	}
	e.killCands(ls.entSt, ls.entFr, cands, "initial")
	lap("initial")
	for round := 0; ; round++ {
		if round > 25 {
			for _, cd := range cands {
				cd.dead = true
			}
			for _, hm := range ls.mods.heap {
				if hm.local {
					unsup("loop analysis does not settle at %s", e.pos(loopPos(blk)))
				}
			}
			break
		}
		lc := e.runBody(ls, cands)
		changed := false
		lap("body")
		for _, b := range lc.backs {
			if e.killCands(b.st, b.fr, cands, "inductive") {
				changed = true
			}
		}
		lap(fmt.Sprintf("round %d backs %d", round, len(lc.backs)))
		if !changed {
			if e.tighten(ls, lc) {
				for _, cd := range cands {
					cd.dead = false
				}
				e.killCands(ls.entSt, ls.entFr, cands, "initial")
				round = 0
				continue
			}
			e.checkLocal(ls, lc)
			break
		}
	}
	e.prune(ls, cands)
	e.mute--
	live := 0
	for _, cd := range cands {
		if !cd.dead {
			live++
			if e.cfg.verbose {
				e.logf("  inv %s", cd.name)
			}
		}
	}
	if e.mute == 0 {
		e.loopsSeen++
		e.loopInvs += live
	}
	// final pass
	hst, hfr := e.headState(ls, cands)
	st2, fr2 := hst, hfr
	lc := &loopCtx{analysis: false, body: body}
	fr2.loops[blk] = lc
	outs := e.instrs(st2, fr2, blk, 0)
	return outs
}

// counted reports whether the loop at blk counts from one known number to
// another in at most maxUnroll steps, whatever its body does.
func (e *Eng) counted(st *State, fr *Frame, blk *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	const maxUnroll = 8
	br, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
	if !ok || body[blk.Succs[0]] == body[blk.Succs[1]] {
		return false
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Block() != blk {
		return false
	}
	num := func(v ssa.Value) (int64, bool) {
		if x, ok := v.(ssa.Instruction); ok && body[x.Block()] {
			return 0, false
		}
		b, ok := under(v.Type()).(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return 0, false
		}
		t := e.val(st, fr, v)
		if len(t.X) != 1 || t.X[0].num == nil || !t.X[0].num.IsInt64() {
			return 0, false
		}
		return t.X[0].num.Int64(), true
	}
	step := func(v ssa.Value, ph *ssa.Phi) (int64, bool) {
		if v == ph {
			return 0, true
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && b.X == ph {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
				if n, exact := constant.Int64Val(constant.ToInt(k.Value)); exact && n > -64 && n < 64 {
					if b.Op == token.SUB {
						n = -n
					}
					return n, true
				}
			}
		}
		return 0, false
	}
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		add, ok := step(cond.X, ph) // the compared value is ph + add
		if !ok {
			continue
		}
		end, ok := num(cond.Y)
		if !ok {
			continue
		}
		x := fr.regs[ph]
		if len(x.X) != 1 || x.X[0].num == nil || !x.X[0].num.IsInt64() {
			continue
		}
		var inc int64
		good := true
		for i, p := range blk.Preds {
			if body[p] {
				k, ok := step(ph.Edges[i], ph)
				if !ok || k == 0 || inc != 0 && inc != k {
					good = false
				}
				inc = k
			}
		}
		if !good || inc == 0 {
			continue
		}
		at := x.X[0].num.Int64()
		if at < -1<<30 || at > 1<<30 || end < -1<<30 || end > 1<<30 {
			continue
		}
		for n := 0; n <= maxUnroll; n++ {
			v := at + add
			var c bool
			switch cond.Op {
			case token.LSS:
				c = v < end
			case token.LEQ:
				c = v <= end
			case token.GTR:
				c = v > end
			case token.GEQ:
				c = v >= end
			case token.NEQ:
				c = v != end
			case token.EQL:
				c = v == end
			default:
				return false
			}
			if c != body[blk.Succs[0]] {
				return true
			}
			at += inc
		}
	}
	return false
}

func hasQuant(t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// prune drops quantified invariants that the others imply.
func (e *Eng) prune(ls *loopState, cands []*cand) {
	var quant []*cand
	for _, cd := range cands {
		if cd.tmpl && !cd.dead {
			if t := cd.eval(ls.entSt, ls.entFr); t != nil && hasQuant(t) {
				quant = append(quant, cd)
			}
		}
	}
	if len(quant) < 12 {
		return
	}
	for _, cd := range quant {
		cd.dead = true
	}
	st, fr := e.headState(ls, cands)
	ts := make([]*Term, len(quant))
	var qs []*query
	for i, cd := range quant {
		if ts[i] = cd.eval(st, fr); ts[i] == nil {
			ts[i] = e.c.T
		}
		qs = append(qs, &query{f: st.facts, goal: ts[i], ms: 200})
	}
	e.s.CheckMany(qs)
	for i, cd := range quant {
		if ts[i] == e.c.T || st.fset[ts[i]] || qs[i].res == "unsat" {
			continue
		}
		q := &query{f: st.facts, goal: ts[i], ms: 200}
		e.s.CheckMany([]*query{q})
		if q.res != "unsat" {
			cd.dead = false
			e.add(st, ts[i])
		}
	}
}

// killCands drops the candidates that do not hold in st.
func (e *Eng) killCands(st *State, fr *Frame, cands []*cand, what string) bool {
	var qs []*query
	var of []*cand
	killed := false
	if e.deadline > 0 && time.Now().UnixNano() > e.deadline {
		unsup("time budget exhausted")
	}
	kill := func(cd *cand) {
		cd.dead = true
		killed = true
		if debugCand && cd.tmpl {
			fmt.Fprintln(os.Stderr, "not "+what+":", cd.name, st.trace)
		}
	}
	for _, cd := range cands {
		if cd.dead {
			continue
		}
		t := cd.eval(st, fr)
		switch {
		case t == nil || t == e.c.F || st.fset[e.c.Not(t)]:
			kill(cd)
		case t == e.c.T || st.fset[t]:
		default:
			qs = append(qs, &query{f: st.facts, goal: t, ms: cd.limit(e.cfg)})
			of = append(of, cd)
		}
	}
	e.s.CheckMany(qs)
	if what == "inductive" {
		// a clause of the contract is given up only after a second look; those
		// with the fewest slots to guess are the likeliest to be needed
		var again []*query
		for n := 0; n <= 1; n++ {
			for i, q := range qs {
				if q.res == "unknown" && of[i].tmpl && of[i].slots == n && len(again) < 8 {
					q.ms *= 6
					again = append(again, q)
				}
			}
		}
		e.s.CheckMany(again)
	}
	for i, q := range qs {
		if q.res != "unsat" {
			if debugCand && e.cfg.dumpDir != "" && of[i].tmpl {
				e.candDumps++
				os.WriteFile(fmt.Sprintf("%s/cand-%d.smt2", e.cfg.dumpDir, e.candDumps), []byte("; "+of[i].name+"\n"+Script(e.c, q.f, q.goal, false)), 0o644)
			}
			kill(of[i])
		}
	}
	return killed
}

func loopPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return 0
}

func (m *loopMods) String() string {
	var ps []string
	for p := range m.phis {
		ps = append(ps, p.Name()+"/"+p.Comment)
	}
	for c := range m.cells {
		ps = append(ps, fmt.Sprintf("cell%d", c))
	}
	for _, k := range sortedKeys(m.heap) {
		if m.heap[k].whole {
			ps = append(ps, fmt.Sprintf("%s(*)%v%v", k, m.heap[k].local, m.heap[k].refs))
		} else {
			ps = append(ps, fmt.Sprintf("%s%v", k, m.heap[k].refs))
		}
	}
	return strings.Join(ps, " ")
}

var debugLap = os.Getenv("GOVC_LAP") != ""

var debugCand = os.Getenv("GOVC_CAND") != ""

func (cd *cand) limit(cfg *Config) int {
	ms := 200
	if cd.tmpl {
		ms = 800
	}
	if cfg.scale > 0 {
		ms *= cfg.scale
	}
	return ms
}

func (cd *cand) eval(st *State, fr *Frame) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsup); ok {
				if debugCand {
					fmt.Fprintln(os.Stderr, "candidate", cd.name, "dropped:", u)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return cd.f(st, fr)
}

// headState builds an arbitrary state at the loop head.
func (e *Eng) headState(ls *loopState, cands []*cand) (*State, *Frame) {
	c := e.c
	st, fr := ls.entSt.clone(), ls.entFr.clone()
	m := &ls.mods
	if m.alloc {
		e.loopRegions++
	}
	for _, ph := range ls.phis {
		if m.phis[ph] {
			if v := fr.regs[ph]; v.Fn != nil || v.A != nil || v.It != 0 {
				unsup("loop variable %s holds an address or function", ph.Name())
			}
			fr.regs[ph] = e.fresh(st, "l_"+ph.Comment, ph.Type())
		}
	}
	for _, id := range sortedInts(m.cells) {
		v := st.cells[id]
		if v.T == nil || v.Fn != nil || v.A != nil {
			unsup("loop variable holds an address or function")
		}
		st.cells[id] = e.fresh(st, "l_cell", v.T)
	}
	for _, k := range sortedKeys(m.heap) {
		hm := m.heap[k]
		cur := e.headHeap(ls.entSt, k)
		if cur == nil {
			unsup("loop writes unknown state %s", k)
		}
		if hm.whole {
			f := c.Fresh("lh", cur.Srt)
			ks, _ := arrParts(cur.Srt)
			if ks == SInt && (k[0] == 'F' || k[0] == 'E' || k[0] == 'P' || k[0] == 'M' || k == "okind" || k == "oref") {
				v := e.qvar("lr", SInt, 96)
				keep := []*Term{freshIn(c, k, v, ls)}
				if hm.local {
					keep = append(keep, e.localRegion(ls, k, v))
				}
				for _, r := range hm.refs {
					keep = append(keep, c.Eq(v, r))
				}
				for _, o := range hm.owned {
					// owners of storage that exists do not change in the loop
					for _, ok := range []string{"okind", "oref"} {
						if om := m.heap[ok]; om != nil && (om.local || len(om.refs) > 0 || len(om.owned) > 0) {
							unsup("storage changes hands in a loop that writes to it through its owner")
						}
					}
					keep = append(keep, c.And(c.Eq(c.Select(e.okind(ls.entSt.heap), v), c.Int(3)), c.Eq(c.Select(e.oref(ls.entSt.heap), v), o)))
				}
				keep = append(keep, c.Eq(c.Select(f, v), c.Select(cur, v)))
				e.add(st, c.Forall([]*Term{v}, c.Or(keep...), []*Term{c.Select(f, v)}))
				if e.heapFrom == nil {
					e.heapFrom = map[*Term]*loopHeap{}
				}
				e.heapFrom[f] = &loopHeap{ls: ls, cur: cur, hm: hm}
			}
			st.heap[k] = f
			continue
		}
		_, vs := arrParts(cur.Srt)
		n := cur
		for _, r := range hm.refs {
			f := c.Fresh("lh", vs)
			n = c.Store(n, r, f)
			e.keyFacts(st, k, f)
		}
		st.heap[k] = n
	}
	for _, k := range sortedKeys(m.heap) {
		if strings.HasPrefix(k, "MV:") && strings.HasSuffix(k, "@a") {
			if t, ok := e.mapTypes[strings.TrimSuffix(k[3:], "@a")]; ok {
				e.addMapFacts(st, t)
				for _, r := range m.heap[k].refs {
					for _, f := range e.mapFacts(st, t, st.heap, r) {
						e.add(st, f)
					}
				}
			}
		}
	}
	for _, id := range sortedInts(m.iters) {
		it := *st.iters[id]
		it.vis = c.Fresh("vis", it.vis.Srt)
		st.iters[id] = &it
	}
	for _, cd := range cands {
		if cd.dead {
			continue
		}
		if t := cd.eval(st, fr); t != nil {
			e.add(st, t)
		}
	}
	return st, fr
}

// keyFacts assumes the type facts of a havocked location.
func (e *Eng) keyFacts(st *State, k string, f *Term) {
	if k[0] != 'F' && k[0] != 'P' && k[0] != 'G' {
		return
	}
	base := k
	suf := ""
	if i := strings.LastIndex(k, "@"); i >= 0 {
		base, suf = k[:i], k[i:]
	}
	t := e.keyType[base]
	if t == nil {
		return
	}
	for _, l := range leaves(t) {
		if l.suf != suf {
			continue
		}
		switch l.kind {
		case "int":
			lo, hi := intRange(l.T)
			e.add(st, e.c.Le(e.c.Big(lo), f))
			e.add(st, e.c.Le(f, e.c.Big(hi)))
		case "ref", "func", "arr":
			e.add(st, e.refFact(st, f))
		case "iface":
			e.ifaceFacts(st, f, l.T)
		}
	}
}

// localRegion: r is memory this function allocated before the loop (for
// bytes: and still exclusively its own).
func (e *Eng) localRegion(ls *loopState, k string, r *Term) *Term {
	c := e.c
	t := c.Lt(r, c.Int(0))
	if strings.HasPrefix(k, "E:byte") || strings.HasPrefix(k, "E:uint8") {
		t = c.And(t, c.Eq(c.Select(e.okind(ls.entSt.heap), r), c.Int(2)))
	}
	return t
}

// freshIn: r was allocated after the loop was entered.  The ownership of
// storage is kept per allocation, never for memory embedded in another.
// Memory from earlier iterations of the loops around it is not new either.
func freshIn(c *Ctx, k string, r *Term, ls *loopState) *Term {
	t := c.Lt(r, c.Int(int64(-ls.nalloc0)))
	if ls.level > 0 {
		t = c.And(t, c.Or(c.Lt(c.Int(-regionBase), r), c.Le(r, c.Int(-regionBase*int64(ls.level+1)))))
	}
	if hm := ls.mods.heap[k]; hm == nil || !hm.emb {
		t = c.And(t, c.Ge(r, c.Int(-embBase)))
	}
	return t
}

// loopHeap tells where the heap at the head of a loop comes from: it is cur
// except at the locations hm names.
type loopHeap struct {
	ls  *loopState
	cur *Term
	hm  *heapMod
}

// heapBack walks back from the heap t through the writes of one iteration of
// ls, stopping where stop says so. It calls store for each written index and
// inner for each loop that ran in between, and returns where it ended.
func (e *Eng) heapBack(ls *loopState, t *Term, stop func(*Term) bool, store func(ix *Term), inner func(lh *loopHeap)) *Term {
	for !stop(t) {
		if t.Op == "store" {
			store(t.Args[1])
			t = t.Args[0]
			continue
		}
		lh := e.heapFrom[t]
		if lh == nil || lh.ls == ls {
			return t
		}
		inner(lh)
		t = lh.cur
	}
	return t
}

// tighten looks at the locations whose writes were taken to be anywhere in this
// function's memory: where the invariants show that they are in memory
// allocated in the loop or in arrays known before it, only those are forgotten.
func (e *Eng) tighten(ls *loopState, lc *loopCtx) bool {
	c := e.c
	changed := false
	for _, k := range sortedKeys(ls.mods.heap) {
		hm := ls.mods.heap[k]
		if !hm.local || hm.tried {
			continue
		}
		hm.tried = true
		var arrs []*Term
		for _, r := range ls.arrays {
			if r.X[0].num != c.Int(0).num {
				arrs = append(arrs, r.X[0])
			}
		}
		ok := true
		var refs []*Term
		for _, b := range lc.backs {
			known := map[*Term]bool{}
			for _, r := range hm.refs {
				known[r] = true
			}
			check := func(ix *Term) {
				if !ok || known[ix] {
					return
				}
				known[ix] = true
				fresh := freshIn(c, k, ix, ls)
				if e.validIn(b.st, fresh, 1000) {
					return
				}
				for _, a := range arrs {
					if e.validIn(b.st, c.Or(fresh, c.Eq(ix, a)), 1000) {
						refs = append(refs, a)
						return
					}
				}
				if debugCand {
					fmt.Fprintln(os.Stderr, "cannot tighten", k, "at", ix, "arrays", arrs)
				}
				ok = false
			}
			e.heapBack(ls, b.st.heap[k], func(*Term) bool { return false }, check, func(lh *loopHeap) {
				for _, r := range lh.hm.refs {
					check(r)
				}
				ok = ok && !lh.hm.local
			})
		}
		if ok {
			hm.local = false
			for _, r := range refs {
				have := false
				for _, x := range hm.refs {
					have = have || x == r
				}
				if !have {
					hm.refs = append(hm.refs, r)
				}
			}
			changed = true
		}
	}
	return changed
}

// checkLocal proves that every write at a varying index stays within memory
// the loop head forgets.
func (e *Eng) checkLocal(ls *loopState, lc *loopCtx) {
	c := e.c
	for _, b := range lc.backs {
		for _, k := range sortedKeys(b.st.heap) {
			hm := ls.mods.heap[k]
			if hm == nil || !hm.local {
				continue
			}
			known := map[*Term]bool{}
			for _, r := range hm.refs {
				known[r] = true
			}
			check := func(ix *Term) {
				if known[ix] {
					return
				}
				known[ix] = true
				if !e.validIn(b.st, c.Or(freshIn(c, k, ix, ls), e.localRegion(ls, k, ix)), 3000) {
					unsup("loop at %s writes %s at an index that varies (%s)", e.pos(loopPos(ls.blk)), k, ix)
				}
			}
			e.heapBack(ls, b.st.heap[k], func(*Term) bool { return false }, check, func(lh *loopHeap) {
				for _, r := range lh.hm.refs {
					check(r)
				}
				if lh.hm.local {
					r := c.Fresh("lr", SInt)
					goal := c.Imp(e.localRegion(lh.ls, k, r), c.Or(freshIn(c, k, r, ls), e.localRegion(ls, k, r)))
					if !e.validIn(b.st, goal, 3000) {
						unsup("loop at %s writes %s at an index that varies", e.pos(loopPos(ls.blk)), k)
					}
				}
			})
		}
	}
}

func (e *Eng) headHeap(st *State, k string) *Term {
	if t, ok := st.heap[k]; ok {
		return t
	}
	s, ok := e.c.csort[san("H!"+k)]
	if !ok {
		return nil
	}
	return e.c.Const("H!"+k, s)
}

// runBody executes the loop body once from an arbitrary head state.
func (e *Eng) runBody(ls *loopState, cands []*cand) *loopCtx {
	reg := e.loopRegions
	st, fr := e.headState(ls, cands)
	lc := &loopCtx{analysis: true, body: ls.body}
	fr.loops[ls.blk] = lc
	e.instrs(st, fr, ls.blk, 0)
	e.loopRegions = reg
	return lc
}

func sameVal(a, b Val) bool {
	if len(a.X) != len(b.X) || (a.Fn == nil) != (b.Fn == nil) || (a.A == nil) != (b.A == nil) || a.It != b.It {
		return false
	}
	for i := range a.X {
		if a.X[i] != b.X[i] {
			return false
		}
	}
	if a.Fn != nil && a.Fn.fn != b.Fn.fn {
		return false
	}
	return true
}

// growMods extends the write set by what the back edges show; it reports
// whether it grew.
func (e *Eng) growMods(ls *loopState, lc *loopCtx) bool {
	m := &ls.mods
	grew := false
	hst := ls.entSt
	// the heaps the round that is analysed started with
	wholeAt := map[string]bool{}
	for k, hm := range m.heap {
		wholeAt[k] = hm.whole
	}
	for _, b := range lc.backs {
		for _, ph := range ls.phis {
			if !m.phis[ph] && !sameVal(b.fr.regs[ph], ls.entFr.regs[ph]) {
				m.phis[ph] = true
				grew = true
			}
		}
		for id, v := range hst.cells {
			if !m.cells[id] && !sameVal(b.st.cells[id], v) {
				m.cells[id] = true
				grew = true
			}
		}
		for id, it := range hst.iters {
			if !m.iters[id] && b.st.iters[id] != nil && b.st.iters[id].vis != it.vis {
				m.iters[id] = true
				grew = true
			}
		}
		if b.st.nalloc > ls.nalloc0 && !m.alloc {
			m.alloc = true
			grew = true
		}
		if len(b.st.held) != len(hst.held) {
			unsup("locks change in a loop")
		}
		if len(b.st.unshared) != len(hst.unshared) {
			unsup("objects with locks are allocated in a loop")
		}
		if b.st.hand != hst.hand {
			unsup("reference counts change in a loop")
		}
		for _, k := range sortedKeys(b.st.heap) {
			end := b.st.heap[k]
			hm := m.heap[k]
			if hm != nil && hm.whole && len(hm.refs) == 0 && !strings.ContainsAny(k[:1], "FEPM") && k != "okind" && k != "oref" {
				continue
			}
			head := e.headHeap(hst, k)
			if end == head {
				continue
			}
			if head == nil {
				// first touched by the body, which replaced it
				head = e.c.Const("H!"+k, end.Srt)
			}
			known := map[*Term]bool{}
			if hm != nil {
				for _, r := range hm.refs {
					known[r] = true
				}
			}
			wholeHead := wholeAt[k]
			// stores already part of the entry heap are not writes of the loop
			pre := map[*Term]bool{}
			if !wholeHead {
				h := head
				for h.Op == "store" {
					pre[h] = true
					h = h.Args[0]
				}
				pre[h] = true
			}
			stop := func(t *Term) bool { return pre[t] }
			nop := func(*Term) {}
			if t := e.heapBack(ls, end, stop, nop, func(*loopHeap) {}); !wholeHead && !pre[t] {
				// replaced altogether
				m.heap[k] = &heapMod{whole: true}
				unsupIf(k[0] == 'F' || k[0] == 'E', "loop replaces %s", k)
				grew = true
				continue
			}
			nh := &heapMod{}
			if hm != nil {
				*nh = *hm
				nh.refs = append([]*Term(nil), hm.refs...)
			}
			ch := false
			varies := func(ix *Term) {
				// an index that varies with the iteration: memory this function
				// allocated, which checkLocal proves once the invariants are known
				if k[0] != 'E' {
					unsup("loop writes %s at an index that varies", k)
				}
				if !nh.whole || !nh.local {
					nh.whole, nh.local = true, true
					ch = true
				}
			}
			whole := func() {
				if !nh.whole {
					nh.whole = true
					ch = true
				}
			}
			emb := func() {
				if !nh.emb {
					nh.emb = true
					ch = true
				}
			}
			store := func(ix *Term) {
				if known[ix] {
					return
				}
				if ix.num != nil && ix.num.Sign() < 0 && ix.num.Int64() < -int64(ls.nalloc0) {
					// memory allocated in this iteration
					whole()
					return
				}
				if o, _, ok := e.owner(ix); ok && k != "okind" && k != "oref" && o.num != nil && o.num.Sign() < 0 && o.num.Int64() < -int64(ls.nalloc0) {
					whole()
					emb()
					return
				}
				if e.invariantTerm(ls, ix) {
					known[ix] = true
					nh.refs = append(nh.refs, ix)
					ch = true
					return
				}
				varies(ix)
			}
			own := func(o *Term) {
				for _, x := range nh.owned {
					if x == o {
						return
					}
				}
				if !e.invariantTerm(ls, o) {
					unsup("loop writes the storage of an object that varies")
				}
				nh.owned = append(nh.owned, o)
				ch = true
			}
			e.heapBack(ls, end, stop, store, func(lh *loopHeap) {
				whole()
				if lh.hm.emb {
					emb()
				}
				for _, r := range lh.hm.refs {
					store(r)
				}
				for _, o := range lh.hm.owned {
					own(o)
				}
				if lh.hm.local {
					varies(nil)
				}
			})
			if ch {
				m.heap[k] = nh
				grew = true
			}
		}
	}
	return grew
}

func unsupIf(b bool, f string, a ...interface{}) {
	if b {
		unsup(f, a...)
	}
}

// invariantTerm: the term has the same value in every iteration, because it
// is built from symbols that existed at loop entry.
func (e *Eng) invariantTerm(ls *loopState, t *Term) bool {
	if t.id <= ls.mark || t.num != nil {
		return true
	}
	if r, ok := ls.inv[t]; ok {
		return r
	}
	r := true
	if len(t.Args) == 0 {
		r = strings.HasPrefix(t.Op, "H!")
	}
	for _, a := range t.Args {
		if !e.invariantTerm(ls, a) {
			r = false
			break
		}
	}
	ls.inv[t] = r
	return r
}

// ---- candidates ----

type slot struct {
	name string
	get  func(st *State, fr *Frame) *Term
	kind string
	ent  *Term
	mod  bool
}

func (e *Eng) slots(ls *loopState) (ints, bools, refs, ifs []slot, slices []func(st *State, fr *Frame) Val, sliceNames []string) {
	ls.maps, ls.arrays, ls.ptrs = nil, nil, nil
	add := func(name, kind string, mod bool, get func(st *State, fr *Frame) *Term) {
		s := slot{name: name, get: get, kind: kind, mod: mod}
		s.ent = get(ls.entSt, ls.entFr)
		switch kind {
		case "int", "len", "off", "cap":
			ints = append(ints, s)
		case "bool":
			bools = append(bools, s)
		case "ref", "arr", "func":
			refs = append(refs, s)
		case "iface":
			ifs = append(ifs, s)
		}
	}
	addVal := func(name string, t types.Type, mod bool, get func(st *State, fr *Frame) Val) {
		if t == nil {
			return
		}
		if _, ok := t.(*types.Tuple); ok {
			return
		}
		if _, ok := under(t).(*types.Struct); ok {
			return
		}
		for i, l := range leaves(t) {
			i := i
			add(name+l.suf, l.kind, mod, func(st *State, fr *Frame) *Term {
				v := get(st, fr)
				if i >= len(v.X) {
					unsup("no term")
				}
				return v.X[i]
			})
		}
		if _, ok := under(t).(*types.Map); ok {
			ls.maps = append(ls.maps, get)
		}
		if p, ok := under(t).(*types.Pointer); ok {
			if ts := e.S.Types[typeKey(p.Elem())]; ts != nil && len(ts.Ghost) > 0 {
				ls.ptrs = append(ls.ptrs, get)
			}
		}
		if _, ok := under(t).(*types.Slice); ok {
			ls.arrays = append(ls.arrays, get(ls.entSt, ls.entFr))
			slices = append(slices, get)
			sliceNames = append(sliceNames, name)
		}
	}
	for _, ph := range ls.phis {
		ph := ph
		if ph.Comment == "rangeindex" {
			add("rangeindex+1", "int", true, func(st *State, fr *Frame) *Term {
				return e.c.Add(fr.regs[ph].X[0], e.c.Int(1))
			})
		}
		if len(ls.entFr.regs[ph].X) == 0 {
			continue
		}
		addVal(ph.Comment+"/"+ph.Name(), ph.Type(), ls.mods.phis[ph], func(st *State, fr *Frame) Val { return fr.regs[ph] })
	}
	for id := range ls.mods.cells {
		id := id
		addVal(fmt.Sprintf("cell%d", id), ls.entSt.cells[id].T, true, func(st *State, fr *Frame) Val { return st.cells[id] })
	}
	for _, k := range sortedKeys(ls.mods.heap) {
		hm := ls.mods.heap[k]
		if hm.whole || k[0] != 'F' && k[0] != 'P' && k[0] != 'G' {
			continue
		}
		base := k
		if i := strings.LastIndex(k, "@"); i >= 0 {
			base = k[:i]
			if k[i:] != "@a" {
				continue
			}
		}
		t := e.keyType[base]
		if t == nil || k[0] == 'G' {
			continue
		}
		for _, r := range hm.refs {
			r := r
			addVal(base, t, true, func(st *State, fr *Frame) Val {
				v := Val{T: t}
				for _, l := range leaves(t) {
					kk := base + l.suf
					v.X = append(v.X, e.c.Select(e.hget(st.heap, kk, e.heapSort(kk, l.srt)), r))
				}
				return v
			})
		}
	}
	// values used in the loop but defined before it
	seen := map[ssa.Value]bool{}
	var outer []ssa.Value
	for _, b := range ls.blk.Parent().Blocks {
		if !ls.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || seen[v] {
					continue
				}
				seen[v] = true
				if _, ok := ls.entFr.regs[v]; ok {
					isPhi := false
					for _, ph := range ls.phis {
						if ph == v {
							isPhi = true
						}
					}
					if !isPhi {
						if in2, ok := v.(ssa.Instruction); ok && ls.body[in2.Block()] {
							continue
						}
						outer = append(outer, v)
					}
				}
			}
		}
	}
	for _, v := range outer {
		v := v
		rv := ls.entFr.regs[v]
		if len(rv.X) == 0 || rv.A != nil || rv.Fn != nil {
			continue
		}
		if len(leavesSafe(v.Type())) != len(rv.X) {
			continue
		}
		addVal(v.Name(), v.Type(), false, func(st *State, fr *Frame) Val { return rv })
	}
	for _, p := range ls.blk.Parent().Params {
		if !seen[p] {
			if _, ok := under(p.Type()).(*types.Slice); ok {
				rv := ls.entFr.regs[p]
				addVal(p.Name(), p.Type(), false, func(st *State, fr *Frame) Val { return rv })
			}
		}
	}
	return
}

func leavesSafe(t types.Type) (ls []leaf) {
	defer func() { recover() }()
	return leaves(t)
}

func (e *Eng) candidates(ls *loopState) []*cand {
	c := e.c
	var out []*cand
	add := func(name string, f func(st *State, fr *Frame) *Term) { out = append(out, &cand{name: name, f: f}) }
	ints, bools, refs, ifs, slices, snames := e.slots(ls)
	for i := range ints {
		s := ints[i]
		if !s.mod {
			continue
		}
		add(s.name+" == entry", func(st *State, fr *Frame) *Term { return c.Eq(s.get(st, fr), s.ent) })
		add(s.name+" >= 0", func(st *State, fr *Frame) *Term { return c.Le(c.Int(0), s.get(st, fr)) })
		add(s.name+" >= -1", func(st *State, fr *Frame) *Term { return c.Le(c.Int(-1), s.get(st, fr)) })
		add(s.name+" >= entry", func(st *State, fr *Frame) *Term { return c.Le(s.ent, s.get(st, fr)) })
		add(s.name+" <= entry", func(st *State, fr *Frame) *Term { return c.Le(s.get(st, fr), s.ent) })
		for j := range ints {
			q := ints[j]
			if i == j || (q.mod && j < i) {
				continue
			}
			add(s.name+" <= "+q.name, func(st *State, fr *Frame) *Term { return c.Le(s.get(st, fr), q.get(st, fr)) })
			add(s.name+" >= "+q.name, func(st *State, fr *Frame) *Term { return c.Le(q.get(st, fr), s.get(st, fr)) })
			add(s.name+" < "+q.name, func(st *State, fr *Frame) *Term { return c.Lt(s.get(st, fr), q.get(st, fr)) })
			if q.mod {
				add(s.name+" + "+q.name+" constant", func(st *State, fr *Frame) *Term {
					return c.Eq(c.Add(s.get(st, fr), q.get(st, fr)), c.Add(s.ent, q.ent))
				})
				add(s.name+" - "+q.name+" constant", func(st *State, fr *Frame) *Term {
					return c.Eq(c.Sub(s.get(st, fr), q.get(st, fr)), c.Sub(s.ent, q.ent))
				})
			}
		}
	}
	for i := range bools {
		s := bools[i]
		if s.mod {
			add(s.name, func(st *State, fr *Frame) *Term { return s.get(st, fr) })
			add("!"+s.name, func(st *State, fr *Frame) *Term { return c.Not(s.get(st, fr)) })
			for j := range ints {
				q := ints[j]
				if !q.mod {
					continue
				}
				add(s.name+" => "+q.name+" >= 1", func(st *State, fr *Frame) *Term { return c.Imp(s.get(st, fr), c.Le(c.Int(1), q.get(st, fr))) })
			}
		}
	}
	for i := range refs {
		s := refs[i]
		if !s.mod {
			continue
		}
		add(s.name+" != nil", func(st *State, fr *Frame) *Term { return c.Ne(s.get(st, fr), c.Int(0)) })
		add(s.name+" == entry", func(st *State, fr *Frame) *Term { return c.Eq(s.get(st, fr), s.ent) })
		if s.kind == "arr" {
			add(s.name+" == entry or newer", func(st *State, fr *Frame) *Term {
				return c.Or(c.Eq(s.get(st, fr), s.ent), freshIn(c, "E", s.get(st, fr), ls))
			})
		}
		add(s.name+" new", func(st *State, fr *Frame) *Term { return c.Lt(s.get(st, fr), c.Int(0)) })
		for j := range refs {
			q := refs[j]
			if j != i {
				add(s.name+" == "+q.name, func(st *State, fr *Frame) *Term { return c.Eq(s.get(st, fr), q.get(st, fr)) })
			}
		}
	}
	for i := range ifs {
		s := ifs[i]
		if !s.mod {
			continue
		}
		add(s.name+" == nil", func(st *State, fr *Frame) *Term { return c.Eq(s.get(st, fr), c.NilI()) })
		add(s.name+" == entry", func(st *State, fr *Frame) *Term { return c.Eq(s.get(st, fr), s.ent) })
	}
	for i := range slices {
		g, nm := slices[i], snames[i]
		add(nm+" is new memory", func(st *State, fr *Frame) *Term {
			return c.Le(g(st, fr).X[0], c.Int(0))
		})
		add(nm+" is new memory, not nil", func(st *State, fr *Frame) *Term {
			return c.Lt(g(st, fr).X[0], c.Int(0))
		})
		add(nm+" nil or with capacity", func(st *State, fr *Frame) *Term {
			return c.Or(c.Ne(g(st, fr).X[0], c.Int(0)), c.Eq(g(st, fr).X[3], c.Int(0)))
		})
		for _, kd := range []int64{0, 2} {
			kd := kd
			add(fmt.Sprintf("okind(%s) == %d", nm, kd), func(st *State, fr *Frame) *Term {
				return c.Or(c.Eq(g(st, fr).X[0], c.Int(0)), c.Eq(c.Select(e.okind(st.heap), g(st, fr).X[0]), c.Int(kd)))
			})
		}
	}
	// arrays written at fixed references: unchanged outside the slices in use
	for _, k := range sortedKeys(ls.mods.heap) {
		hm := ls.mods.heap[k]
		if k[0] != 'E' || hm.whole {
			continue
		}
		k := k
		ent := e.headHeap(ls.entSt, k)
		if ent == nil {
			continue
		}
		for _, r := range hm.refs {
			r := r
			ein := c.Select(ent, r)
			for i := range slices {
				g, nm := slices[i], snames[i]
				add(fmt.Sprintf("%s unchanged outside %s", k, nm), func(st *State, fr *Frame) *Term {
					v := g(st, fr)
					if v.X[0] != r {
						return nil
					}
					cur := c.Select(e.headHeap(st, k), r)
					j := e.qvar("lj", SInt, 97)
					return c.Forall([]*Term{j}, c.Or(c.And(c.Le(v.X[1], j), c.Lt(j, c.Add(v.X[1], v.X[2]))), c.Eq(c.Select(cur, j), c.Select(ein, j))), []*Term{c.Select(cur, j)})
				})
				for q := range ints {
					x := ints[q]
					if !x.mod {
						continue
					}
					add(fmt.Sprintf("%s unchanged before %s+%s", k, nm, x.name), func(st *State, fr *Frame) *Term {
						v := g(st, fr)
						if v.X[0] != r {
							return nil
						}
						cur := c.Select(e.headHeap(st, k), r)
						j := e.qvar("lj", SInt, 97)
						return c.Forall([]*Term{j}, c.Or(c.And(c.Le(v.X[1], j), c.Lt(j, c.Add(v.X[1], x.get(st, fr)))), c.Eq(c.Select(cur, j), c.Select(ein, j))), []*Term{c.Select(cur, j)})
					})
				}
			}
		}
	}
	// monitors held
	for _, h := range ls.entSt.held {
		if h.ts == nil || h.unsh {
			continue
		}
		h := h
		for _, iv := range h.ts.Inv {
			iv := iv
			add("invariant "+iv.Src, func(st *State, fr *Frame) *Term {
				return e.evalB(st, e.selfEnv(st, h.ref, h.T), iv.E)
			})
		}
	}
	// visited keys
	for id := range ls.mods.iters {
		id := id
		add("visited within domain", func(st *State, fr *Frame) *Term {
			it := st.iters[id]
			k := e.qvar("vk", it.ksrt, 98)
			return c.Forall([]*Term{k}, c.Imp(c.Select(it.vis, k), c.And(c.Ne(it.m, c.Int(0)), c.Select(it.dom, k))), []*Term{c.Select(it.vis, k)})
		})
	}
	// templates of the contract
	for _, cl := range e.con.Loops {
		e.templates(ls, cl, &out, ints, bools, refs, ifs, slices, snames)
	}
	return out
}

// freeSlots lists the identifiers of the form _i..., _s..., _m... in x.
func freeSlots(x *Expr, out *[]string) {
	if x.K == "id" && strings.HasPrefix(x.S, "_") {
		for _, o := range *out {
			if o == x.S {
				return
			}
		}
		*out = append(*out, x.S)
	}
	for _, a := range x.A {
		freeSlots(a, out)
	}
}

// templates instantiates a loop clause over the slots of the loop.
func (e *Eng) templates(ls *loopState, cl *Clause, out *[]*cand, ints, bools, refs, ifs []slot, slices []func(*State, *Frame) Val, snames []string) {
	var names []string
	freeSlots(cl.E, &names)
	iters := []int{}
	for id := range ls.mods.iters {
		iters = append(iters, id)
	}
	type choice struct {
		nm  string
		get func(st *State, fr *Frame) Val
	}
	opts := make([][]choice, len(names))
	for i, n := range names {
		switch n[1] {
		case 'i':
			for _, s := range ints {
				s := s
				opts[i] = append(opts[i], choice{s.name, func(st *State, fr *Frame) Val { return gv(s.get(st, fr)) }})
			}
		case 'b':
			for _, s := range bools {
				s := s
				if s.mod {
					opts[i] = append(opts[i], choice{s.name, func(st *State, fr *Frame) Val { return gv(s.get(st, fr)) }})
				}
			}
		case 's':
			for k, g := range slices {
				opts[i] = append(opts[i], choice{snames[k], g})
			}
		case 'v': // visited set of a map iteration
			for _, id := range iters {
				id := id
				opts[i] = append(opts[i], choice{"visited", func(st *State, fr *Frame) Val { return gv(st.iters[id].vis) }})
			}
		case 'd': // a map in use
			for _, d := range ls.maps {
				d := d
				opts[i] = append(opts[i], choice{"map", func(st *State, fr *Frame) Val { return d(st, fr) }})
			}
		case 'p': // a pointer to an object with ghost fields
			for _, d := range ls.ptrs {
				d := d
				opts[i] = append(opts[i], choice{"object", func(st *State, fr *Frame) Val { return d(st, fr) }})
			}
		case 'm': // the map being iterated
			for _, id := range iters {
				id := id
				opts[i] = append(opts[i], choice{"map", func(st *State, fr *Frame) Val {
					return Val{T: st.iters[id].mt, X: []*Term{st.iters[id].m}}
				}})
			}
		case 'e':
			for _, s := range ifs {
				s := s
				opts[i] = append(opts[i], choice{s.name, func(st *State, fr *Frame) Val {
					return Val{T: types.Universe.Lookup("error").Type(), X: []*Term{s.get(st, fr)}}
				}})
			}
		case 'r':
			for _, s := range refs {
				s := s
				opts[i] = append(opts[i], choice{s.name, func(st *State, fr *Frame) Val { return gv(s.get(st, fr)) }})
			}
		}
	}
	total := 1
	for _, o := range opts {
		total *= len(o)
	}
	if debugCand {
		fmt.Fprintln(os.Stderr, "template", cl.Src, names, total)
	}
	if total == 0 || total > 3000 {
		return
	}
	sel := make([]int, len(names))
	for n := 0; n < total; n++ {
		q := n
		lbl := cl.Src
		var gets []func(st *State, fr *Frame) Val
		for i := range names {
			sel[i] = q % len(opts[i])
			q /= len(opts[i])
			gets = append(gets, opts[i][sel[i]].get)
			lbl += fmt.Sprintf(" [%s=%s]", names[i], opts[i][sel[i]].nm)
		}
		*out = append(*out, &cand{name: lbl, tmpl: true, slots: len(names), f: func(st *State, fr *Frame) *Term {
			env := &Env{vars: map[string]Val{}, heap: st.heap, old: st.old, lets: e.con.Lets, pkg: e.entry.pkg}
			for k, v := range e.entry.vars {
				env.vars[k] = v
			}
			env.oldV = map[string]Val{}
			for i, nm := range names {
				env.vars[nm] = gets[i](st, fr)
			}
			return e.evalB(st, env, cl.E)
		}})
	}
}

func sortedInts(m map[int]bool) []int {
	var is []int
	for i, ok := range m {
		if ok {
			is = append(is, i)
		}
	}
	sort.Ints(is)
	return is
}
