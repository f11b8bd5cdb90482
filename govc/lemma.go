package main

import (
	"fmt"
	"time"
)

// Lemmas are stated among the axioms; each is proved from the axioms and
// lemmas before it, by induction on an integer where it says so: for all
// values up to 0, and from n to n+1 for n >= 0. In the contracts of functions
// they are used like axioms.
func proveLemmas(P *Program, S *Spec, cfg *Config, want string) *Result {
	res := &Result{Fn: "lemma"}
	t0 := time.Now()
	for i, l := range S.Axioms {
		if l.Kind == "lemma" && (want == "" || isIn(l.Tags, want)) {
			proveLemma(P, S, cfg, want, i, res)
		}
	}
	res.Wall = time.Since(t0).Seconds()
	if len(res.Obls) == 0 && res.Err == "" {
		return nil
	}
	return res
}

func proveLemma(P *Program, S *Spec, cfg *Config, want string, i int, res *Result) {
	l := S.Axioms[i]
	e := newEng(P, S, cfg, "lemma")
	e.want = want
	e.con = &Contract{Key: "lemma", Props: l.Tags}
	defer e.s.Close()
	defer func() {
		if r := recover(); r != nil {
			res.Err = fmt.Sprint(r)
		}
		for _, k := range e.oblOrder {
			res.Obls = append(res.Obls, e.obls[k])
		}
	}()
	c := e.c
	st := newState()
	env := &Env{vars: map[string]Val{}, heap: st.heap, old: st.old}
	for _, ax := range S.Axioms[:i] {
		c.Axiom(e.evalB(nil, env, ax.E))
	}
	if e.dead(st) {
		res.Err = "the axioms are contradictory"
		return
	}
	n := env
	var v *Term
	for k, nm := range l.E.Vs {
		t := c.Fresh("lem_"+nm, sortOf(l.E.Ts[k]))
		n = n.with(nm, gv(t))
		if nm == l.By {
			v = t
		}
	}
	body := e.evalB(st, n, l.E.A[0])
	if l.By == "" {
		e.prove(st, body, l.Label, l.Tags, l.Src)
		return
	}
	if v == nil || v.Srt != SInt {
		res.Err = "lemma " + l.Label + ": no integer variable " + l.By
		return
	}
	s1 := st.clone()
	e.add(s1, c.Le(v, c.Int(0)))
	e.prove(s1, body, l.Label+"-base", l.Tags, "for "+l.By+" <= 0: "+l.Src)
	s2 := st.clone()
	e.add(s2, c.Le(c.Int(0), v))
	e.add(s2, body)
	e.prove(s2, c.Subst(body, map[*Term]*Term{v: c.Add(v, c.Int(1))}), l.Label+"-step", l.Tags, "from "+l.By+" to "+l.By+" + 1: "+l.Src)
}
