package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// audit looks for proofs that hold for the wrong reason: code of the function
// no path reaches, clauses whose condition no return satisfies, and calls
// whose contract no state satisfies. (govc audit; a report for the author of
// the contracts, not part of a check.)
type audit struct {
	blocks  map[*ssa.BasicBlock]bool
	clauses map[string]bool
	order   []string
	calls   map[string]bool // site: some state got past the call
	corder  []string
}

func newAudit() *audit {
	return &audit{blocks: map[*ssa.BasicBlock]bool{}, clauses: map[string]bool{}, calls: map[string]bool{}}
}

// audDead asks with more effort than a feasibility check does.
func (e *Eng) audDead(st *State) bool { return e.s.Check(st.facts, e.c.F, 1000) == "unsat" }

func (e *Eng) audBlock(st *State, blk *ssa.BasicBlock, i int) {
	if e.mute > 0 || e.aud.blocks[blk] || blk.Parent() != e.fn {
		return
	}
	// the first instruction after the phis
	if i > 0 {
		if _, ok := blk.Instrs[i-1].(*ssa.Phi); !ok {
			return
		}
	}
	if !e.audDead(st) {
		e.aud.blocks[blk] = true
	}
}

func (e *Eng) audCall(key, pos string, panics, dead bool) {
	s := key + " at " + pos
	if _, ok := e.aud.calls[s]; !ok {
		e.aud.corder = append(e.aud.corder, s)
	}
	e.aud.calls[s] = e.aud.calls[s] || !dead || panics
}

// conds lists the conditions of the implications in x (outside quantifiers).
func conds(x *Expr) []*Expr {
	if x.K == "binary" {
		switch x.S {
		case "==>":
			return append([]*Expr{x.A[0]}, conds(x.A[1])...)
		case "&&":
			return append(conds(x.A[0]), conds(x.A[1])...)
		}
	}
	return nil
}

func (e *Eng) audClause(st *State, env *Env, x *Clause) {
	for i, a := range conds(x.E) {
		k := fmt.Sprintf("%s: condition %d of %s", x.Label2(), i+1, x.Src)
		if _, ok := e.aud.clauses[k]; !ok {
			e.aud.clauses[k] = false
			e.aud.order = append(e.aud.order, k)
		}
		if e.aud.clauses[k] {
			continue
		}
		t := e.evalB(st, env, a)
		if t == e.c.F || e.s.Check(st.facts, e.c.Not(t), 1000) == "unsat" {
			continue
		}
		e.aud.clauses[k] = true
	}
}

func (a *audit) report(e *Eng) []string {
	var out []string
	for _, b := range e.fn.Blocks {
		if !a.blocks[b] {
			p := ""
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					p = e.pos(in.Pos())
					break
				}
			}
			out = append(out, fmt.Sprintf("block %d (%s) at %s is not reached", b.Index, b.Comment, p))
		}
	}
	for _, k := range a.order {
		if !a.clauses[k] {
			out = append(out, "never satisfied: "+k)
		}
	}
	for _, k := range a.corder {
		if !a.calls[k] {
			out = append(out, "no state gets past "+k)
		}
	}
	sort.Strings(out)
	return out
}
