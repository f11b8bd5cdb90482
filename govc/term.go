package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort names an SMT-LIB sort.
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SIface Sort = "Iface"
	SFlt   Sort = "Flt"
)

// ArrOf returns the sort of arrays from k to v.
func ArrOf(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrParts splits an array sort.
func arrParts(s Sort) (k, v Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	in := str[len("(Array ") : len(str)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort: " + str)
}

// Term is a hash-consed SMT term.
type Term struct {
	Op   string
	Args []*Term
	Srt  Sort
	id   int
	num  *big.Int // integer literals
	// quantifiers
	Vars []*Term
	Pats [][]*Term
	// flags
	bound bool // contains a bound variable
	isVar bool // is a bound variable
	size  int
	alloc int // >0: allocation symbol number
}

// Ctx owns the terms of one verification run.
type Ctx struct {
	onLit  func(s string, t *Term)
	tab    map[string]*Term
	n      int
	fresh  int
	decls  []string        // in order
	known  map[string]bool // declared names
	fsig   map[string]Sort // result sorts of declared functions
	csort  map[string]Sort // sorts of declared constants
	alloc  int
	T, F   *Term
	Nil    *Term // Ref nil / 0
	lits   map[string]*Term
	litsN  []*Term
	axioms []*Term // asserted at the base level
	axSeen map[*Term]bool
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, known: map[string]bool{}, fsig: map[string]Sort{}, lits: map[string]*Term{}}
	c.T = c.mk("true", SBool)
	c.F = c.mk("false", SBool)
	c.Nil = c.Int(0)
	return c
}

func (c *Ctx) intern(key string, t *Term) *Term {
	if old, ok := c.tab[key]; ok {
		return old
	}
	c.n++
	t.id = c.n
	t.size = 1
	for _, a := range t.Args {
		t.size += a.size
		if a.bound {
			t.bound = true
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	c.tab[key] = t
	return t
}

func (c *Ctx) mk(op string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	return c.intern(sb.String(), &Term{Op: op, Args: args, Srt: s})
}

func (c *Ctx) Int(n int64) *Term { return c.Big(big.NewInt(n)) }

func (c *Ctx) Big(n *big.Int) *Term {
	key := "#" + n.String()
	op := n.String()
	if n.Sign() < 0 {
		op = "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return c.intern(key, &Term{Op: op, Srt: SInt, num: n})
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func san(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '#', r == '$', r == '@':
			sb.WriteRune(r)
		case r == '*':
			sb.WriteString("&")
		case r == '[' || r == ']' || r == '{' || r == '}' || r == '(' || r == ')':
			sb.WriteString("%")
		default:
			sb.WriteString("_")
		}
	}
	return sb.String()
}

// Const declares (once) and returns a constant.
func (c *Ctx) Const(name string, s Sort) *Term {
	name = san(name)
	if !c.known[name] {
		c.known[name] = true
		c.decls = append(c.decls, fmt.Sprintf("(declare-const %s %s)", name, s))
		if c.csort == nil {
			c.csort = map[string]Sort{}
		}
		c.csort[name] = s
	}
	return c.mk(name, s)
}

// Fresh returns a new constant.
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.fresh++
	return c.Const(fmt.Sprintf("%s!%d", hint, c.fresh), s)
}

// Axiom adds a closed base-level axiom.
func (c *Ctx) Axiom(t *Term) {
	if t == c.T {
		return
	}
	if c.axSeen == nil {
		c.axSeen = map[*Term]bool{}
	}
	if !c.axSeen[t] {
		c.axSeen[t] = true
		c.axioms = append(c.axioms, t)
	}
}

// NewAlloc returns a new allocation symbol.
func (c *Ctx) NewAlloc(hint string) *Term {
	c.alloc++
	t := c.Const(fmt.Sprintf("new!%s!%d", hint, c.alloc), SInt)
	t.alloc = c.alloc
	return t
}

// Var returns a new bound variable.
func (c *Ctx) Var(hint string, s Sort) *Term {
	c.fresh++
	name := san(fmt.Sprintf("%s?%d", hint, c.fresh))
	name = strings.ReplaceAll(name, "?", "~")
	t := c.mk(name, s)
	t.bound = true
	t.isVar = true
	return t
}

// App applies a declared (uninterpreted) function.
func (c *Ctx) App(name string, res Sort, args ...*Term) *Term {
	name = san(name)
	if !c.known[name] {
		c.known[name] = true
		var ss []string
		for _, a := range args {
			ss = append(ss, string(a.Srt))
		}
		c.decls = append(c.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(ss, " "), res))
	}
	if len(args) == 0 {
		return c.mk(name, res)
	}
	return c.mk(name, res, args...)
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.T:
		return c.F
	case a == c.F:
		return c.T
	case a.Op == "not":
		return a.Args[0]
	}
	return c.mk("not", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == c.F {
			return false
		}
		if a == c.T || seen[a] {
			return true
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.F
		}
	}
	for _, a := range out {
		if a.Op == "not" && seen[a.Args[0]] {
			return c.F
		}
	}
	switch len(out) {
	case 0:
		return c.T
	case 1:
		return out[0]
	}
	return c.mk("and", SBool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == c.T {
			return c.T
		}
		if a == c.F || seen[a] {
			continue
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.Op == "not" && seen[a.Args[0]] {
			return c.T
		}
	}
	switch len(out) {
	case 0:
		return c.F
	case 1:
		return out[0]
	}
	return c.mk("or", SBool, out...)
}

func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Iff(a, b *Term) *Term { return c.Eq(a, b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g == c.T || a == b {
		return a
	}
	if g == c.F {
		return b
	}
	if a.Srt == SBool {
		if a == c.T && b == c.F {
			return g
		}
		if a == c.F && b == c.T {
			return c.Not(g)
		}
		return c.And(c.Imp(g, a), c.Or(g, b))
	}
	return c.mk("ite", a.Srt, g, a, b)
}

// distinctSyn reports whether a and b are certainly different.
func (c *Ctx) distinctSyn(a, b *Term) bool {
	if a.num != nil && b.num != nil {
		return a.num.Cmp(b.num) != 0
	}
	if a.alloc > 0 && b.alloc > 0 {
		return a != b
	}
	if a.alloc > 0 && b.num != nil && b.num.Sign() <= 0 || b.alloc > 0 && a.num != nil && a.num.Sign() <= 0 {
		return true
	}
	if a.Op == "mkI" && b.Op == "mkI" {
		return c.distinctSyn(a.Args[0], b.Args[0]) || (a.Args[0] == b.Args[0] && c.distinctSyn(a.Args[1], b.Args[1]))
	}
	if a.Srt == SStr && strings.HasPrefix(a.Op, "lit!") && strings.HasPrefix(b.Op, "lit!") {
		return a != b
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.Srt != b.Srt {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.Srt, b, b.Srt))
	}
	if c.distinctSyn(a, b) {
		return c.F
	}
	if a.Srt == SBool {
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.Not(b)
		}
		if b == c.F {
			return c.Not(a)
		}
	}
	if a.Srt == SInt {
		// normalise: difference constant?
		d := c.Sub(a, b)
		if d.num != nil {
			return c.Bool(d.num.Sign() == 0)
		}
	}
	if a.Op == "mkI" && b.Op == "mkI" {
		return c.And(c.Eq(a.Args[0], b.Args[0]), c.Eq(a.Args[1], b.Args[1]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", SBool, a, b)
}

func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// ---- linear integer arithmetic in normal form ----

type lin struct {
	k  *big.Int
	co map[*Term]*big.Int
}

func (c *Ctx) toLin(t *Term, mul *big.Int, l *lin) {
	if t.num != nil {
		l.k.Add(l.k, new(big.Int).Mul(mul, t.num))
		return
	}
	if t.Op == "+" {
		for _, a := range t.Args {
			c.toLin(a, mul, l)
		}
		return
	}
	if t.Op == "*" && len(t.Args) == 2 && t.Args[0].num != nil {
		c.toLin(t.Args[1], new(big.Int).Mul(mul, t.Args[0].num), l)
		return
	}
	if v, ok := l.co[t]; ok {
		v.Add(v, mul)
	} else {
		l.co[t] = new(big.Int).Set(mul)
	}
}

func (c *Ctx) fromLin(l *lin) *Term {
	var ts []*Term
	for t, v := range l.co {
		if v.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, t := range ts {
		v := l.co[t]
		if v.IsInt64() && v.Int64() == 1 {
			args = append(args, t)
		} else {
			args = append(args, c.mk("*", SInt, c.Big(new(big.Int).Set(v)), t))
		}
	}
	if l.k.Sign() != 0 || len(args) == 0 {
		args = append(args, c.Big(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk("+", SInt, args...)
}

func (c *Ctx) Add(as ...*Term) *Term {
	l := &lin{k: new(big.Int), co: map[*Term]*big.Int{}}
	for _, a := range as {
		c.toLin(a, big.NewInt(1), l)
	}
	return c.fromLin(l)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	l := &lin{k: new(big.Int), co: map[*Term]*big.Int{}}
	c.toLin(a, big.NewInt(1), l)
	c.toLin(b, big.NewInt(-1), l)
	return c.fromLin(l)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if b.num != nil {
		a, b = b, a
	}
	if a.num != nil {
		l := &lin{k: new(big.Int), co: map[*Term]*big.Int{}}
		c.toLin(b, a.num, l)
		return c.fromLin(l)
	}
	return c.mk("*", SInt, a, b)
}

func (c *Ctx) cmp(op string, a, b *Term) *Term {
	d := c.Sub(a, b)
	if d.num != nil {
		switch op {
		case "<=":
			return c.Bool(d.num.Sign() <= 0)
		case "<":
			return c.Bool(d.num.Sign() < 0)
		}
	}
	return c.mk(op, SBool, a, b)
}
func (c *Ctx) Le(a, b *Term) *Term { return c.cmp("<=", a, b) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.cmp("<", a, b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.cmp("<=", b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.cmp("<", b, a) }

func (c *Ctx) Mod(a *Term, m *big.Int) *Term {
	if a.num != nil {
		return c.Big(new(big.Int).Mod(a.num, m))
	}
	return c.mk("mod", SInt, a, c.Big(m))
}

// ---- arrays ----

func (c *Ctx) Select(a, i *Term) *Term {
	_, vs := arrParts(a.Srt)
	cur := a
	for cur.Op == "store" {
		if cur.Args[1] == i {
			return cur.Args[2]
		}
		if c.distinctSyn(cur.Args[1], i) {
			cur = cur.Args[0]
			continue
		}
		break
	}
	if cur.Op == "constarr" {
		return cur.Args[0]
	}
	return c.mk("select", vs, cur, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	_, vs := arrParts(a.Srt)
	if vs != v.Srt {
		panic(fmt.Sprintf("store sort mismatch %s into %s", v.Srt, a.Srt))
	}
	if a.Op == "store" && a.Args[1] == i {
		return c.Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk("store", a.Srt, a, i, v)
}

func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk("constarr", s, v)
}

// ---- quantifiers ----

func (c *Ctx) Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return c.quant("forall", vars, body, pats)
}
func (c *Ctx) Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return c.quant("exists", vars, body, pats)
}
func (c *Ctx) quant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == c.T || body == c.F {
		return body
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|", op)
	for _, v := range vars {
		fmt.Fprintf(&sb, "%d,", v.id)
	}
	fmt.Fprintf(&sb, "|%d", body.id)
	for _, p := range pats {
		sb.WriteByte('{')
		for _, t := range p {
			fmt.Fprintf(&sb, "%d,", t.id)
		}
	}
	t := &Term{Op: op, Args: []*Term{body}, Srt: SBool, Vars: vars, Pats: pats}
	r := c.intern(sb.String(), t)
	// bound if body has free variables beyond vars
	fv := map[*Term]bool{}
	c.freeVars(r, map[*Term]bool{}, fv, map[*Term]bool{})
	r.bound = len(fv) > 0
	return r
}

func (c *Ctx) freeVars(t *Term, bnd, out, seen map[*Term]bool) {
	if !t.bound && t.Op != "forall" && t.Op != "exists" {
		return
	}
	if t.isVar {
		if !bnd[t] {
			out[t] = true
		}
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		nb := map[*Term]bool{}
		for k := range bnd {
			nb[k] = true
		}
		for _, v := range t.Vars {
			nb[v] = true
		}
		c.freeVars(t.Args[0], nb, out, map[*Term]bool{})
		return
	}
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		c.freeVars(a, bnd, out, seen)
	}
}

// Subst replaces terms in t.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	return c.subst(t, m, map[*Term]*Term{})
}
func (c *Ctx) subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = c.subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		if t.Op == "forall" || t.Op == "exists" {
			var pats [][]*Term
			for _, p := range t.Pats {
				var np []*Term
				for _, x := range p {
					np = append(np, c.subst(x, m, memo))
				}
				pats = append(pats, np)
			}
			r = c.quant(t.Op, t.Vars, args[0], pats)
		} else {
			r = c.rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "=":
		return c.Eq(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "+":
		return c.Add(a...)
	case "*":
		return c.Mul(a[0], a[1])
	case "<=", "<":
		return c.cmp(t.Op, a[0], a[1])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	}
	return c.mk(t.Op, t.Srt, a...)
}

// MkI builds an interface value.
func (c *Ctx) MkI(tag, val *Term) *Term {
	if tag.Op == "ityp" && val.Op == "ival" && tag.Args[0] == val.Args[0] {
		return tag.Args[0]
	}
	return c.mk("mkI", SIface, tag, val)
}
func (c *Ctx) ITyp(i *Term) *Term {
	if i.Op == "mkI" {
		return i.Args[0]
	}
	return c.mk("ityp", SInt, i)
}
func (c *Ctx) IVal(i *Term) *Term {
	if i.Op == "mkI" {
		return i.Args[1]
	}
	return c.mk("ival", SInt, i)
}
func (c *Ctx) NilI() *Term { return c.MkI(c.Int(0), c.Int(0)) }

// Lit returns the string constant s.
func (c *Ctx) Lit(s string) *Term {
	if t, ok := c.lits[s]; ok {
		return t
	}
	n := len(c.lits)
	name := fmt.Sprintf("lit!%d", n)
	t := c.Const(name, SStr)
	c.lits[s] = t
	c.litsN = append(c.litsN, t)
	if c.onLit != nil {
		c.onLit(s, t)
	}
	return t
}

// LitVal returns the Go value of a literal string term.
func (c *Ctx) LitVal(t *Term) (string, bool) {
	if !strings.HasPrefix(t.Op, "lit!") {
		return "", false
	}
	for s, x := range c.lits {
		if x == t {
			return s, true
		}
	}
	return "", false
}

// Cat concatenates strings in right-nested normal form with merged literals.
func (c *Ctx) Cat(a, b *Term) *Term {
	parts := append(c.catParts(a), c.catParts(b)...)
	var out []*Term
	for _, p := range parts {
		if s, ok := c.LitVal(p); ok {
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if s0, ok0 := c.LitVal(out[n-1]); ok0 {
					out[n-1] = c.Lit(s0 + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return c.Lit("")
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = c.App("strcat", SStr, out[i], r)
	}
	return r
}

func (c *Ctx) catParts(a *Term) []*Term {
	if a.Op == "strcat" {
		return append([]*Term{a.Args[0]}, c.catParts(a.Args[1])...)
	}
	return []*Term{a}
}

// ---- printing ----

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, func(*Term) string { return "" })
	s := sb.String()
	return s
}

// printTerm prints t; name(t) may return an abbreviation.
func printTerm(sb *strings.Builder, t *Term, name func(*Term) string) {
	if s := name(t); s != "" {
		sb.WriteString(s)
		return
	}
	switch t.Op {
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for i, v := range t.Vars {
			if i > 0 {
				sb.WriteByte(' ')
			}
			fmt.Fprintf(sb, "(%s %s)", v.Op, v.Srt)
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.Args[0], name)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					printTerm(sb, x, name)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.Srt)
		printTerm(sb, t.Args[0], name)
		sb.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		sb.WriteString(t.Op)
		return
	}
	sb.WriteString("(" + t.Op)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		printTerm(sb, a, name)
	}
	sb.WriteString(")")
}

// maxID is the number of terms created so far.
func (c *Ctx) maxID() int { return c.n }
