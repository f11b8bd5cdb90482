package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---- expressions ----

// Expr is a specification expression.
type Expr struct {
	K    string // int, str, id, call, field, index, slice, unary, binary, old, forall, exists, assert, star, true,false,nil
	S    string // operator, name, literal
	A    []*Expr
	V    string   // bound variable
	T    string   // type name (quantifier over a type, type assertion)
	Line string   // source position
	Vs   []string // forallm: variables, sorts, patterns
	Ts   []string
	Pats [][]*Expr
}

func (e *Expr) String() string {
	switch e.K {
	case "int", "id":
		return e.S
	case "str":
		return fmt.Sprintf("%q", e.S)
	case "call":
		var a []string
		for _, x := range e.A {
			a = append(a, x.String())
		}
		return e.S + "(" + strings.Join(a, ", ") + ")"
	case "field":
		return e.A[0].String() + "." + e.S
	case "index":
		return e.A[0].String() + "[" + e.A[1].String() + "]"
	case "unary":
		return e.S + e.A[0].String()
	case "binary":
		return "(" + e.A[0].String() + " " + e.S + " " + e.A[1].String() + ")"
	case "old":
		return "old(" + e.A[0].String() + ")"
	case "forall", "exists", "card":
		if e.T != "" {
			return "(" + e.K + " " + e.V + " " + e.T + " :: " + e.A[0].String() + ")"
		}
		return "(" + e.K + " " + e.V + " in " + e.A[1].String() + ".." + e.A[2].String() + " :: " + e.A[0].String() + ")"
	case "assert":
		return e.A[0].String() + ".(" + e.T + ")"
	}
	return e.K
}

type tok struct {
	k string // id int str op eof
	s string
}

func lex(src string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "..", "&&", "||", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "?"}
next:
	for i < len(src) {
		c := src[i]
		if c == ' ' || c == '\t' || c == '\n' {
			i++
			continue
		}
		if unicode.IsLetter(rune(c)) || c == '_' {
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
			continue
		}
		if unicode.IsDigit(rune(c)) {
			j := i
			for j < len(src) && unicode.IsDigit(rune(src[j])) {
				j++
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
			continue
		}
		if c == '"' {
			j := i + 1
			var sb strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						sb.WriteByte('\n')
					case 'r':
						sb.WriteByte('\r')
					default:
						sb.WriteByte(src[j])
					}
				} else {
					sb.WriteByte(src[j])
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("unterminated string in %q", src)
			}
			out = append(out, tok{"str", sb.String()})
			i = j + 1
			continue
		}
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o})
				i += len(o)
				continue next
			}
		}
		return nil, fmt.Errorf("bad character %q in %q", c, src)
	}
	return append(out, tok{"eof", ""}), nil
}

type eparser struct {
	t    []tok
	i    int
	line string
}

func (p *eparser) peek() tok { return p.t[p.i] }
func (p *eparser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *eparser) is(s string) bool {
	return p.t[p.i].k == "op" && p.t[p.i].s == s
}
func (p *eparser) isID(s string) bool {
	return p.t[p.i].k == "id" && p.t[p.i].s == s
}
func (p *eparser) want(s string) {
	if !p.is(s) {
		panic(fmt.Errorf("%s: expected %q, got %q", p.line, s, p.peek().s))
	}
	p.i++
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func parseExpr(src, line string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = er
				return
			}
			panic(r)
		}
	}()
	ts, err := lex(src)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", line, err)
	}
	p := &eparser{t: ts, line: line}
	e = p.expr(0)
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("%s: trailing %q in %q", line, p.peek().s, src)
	}
	return e, nil
}

func (p *eparser) expr(min int) *Expr {
	if p.isID("forall") || p.isID("exists") || (p.isID("card") && p.t[p.i+1].k == "id") {
		return p.quant()
	}
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr) // right associative
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{K: "binary", S: t.s, A: []*Expr{l, r}, Line: p.line}
	}
}

func (p *eparser) quant() *Expr {
	q := p.next().s
	if p.is("(") {
		// forall (a : sort, b : sort) {pattern, ...} ... :: body
		e := &Expr{K: q + "m", Line: p.line}
		p.next()
		for {
			e.Vs = append(e.Vs, p.next().s)
			p.want(":")
			s := ""
			for !p.is(",") && !p.is(")") {
				s += " " + p.next().s
			}
			e.Ts = append(e.Ts, strings.TrimSpace(s))
			if p.is(")") {
				break
			}
			p.next()
		}
		p.next()
		for p.is("{") {
			p.next()
			var ps []*Expr
			for {
				ps = append(ps, p.expr(0))
				if p.is("}") {
					break
				}
				p.want(",")
			}
			p.next()
			e.Pats = append(e.Pats, ps)
		}
		p.want("::")
		e.A = []*Expr{p.expr(0)}
		return e
	}
	v := p.next().s
	e := &Expr{K: q, V: v, Line: p.line}
	if p.isID("in") {
		p.next()
		lo := p.expr(6)
		p.want("..")
		hi := p.expr(6)
		p.want("::")
		b := p.expr(0)
		e.A = []*Expr{b, lo, hi}
		return e
	}
	e.T = p.typeName()
	p.want("::")
	e.A = []*Expr{p.expr(0)}
	return e
}

func (p *eparser) typeName() string {
	s := ""
	for {
		switch {
		case p.is("*"):
			p.next()
			s += "*"
			continue
		case p.is("["):
			p.next()
			p.want("]")
			s += "[]"
			continue
		}
		break
	}
	s += p.next().s
	if p.is(".") && p.t[p.i+1].k == "id" {
		p.next()
		s += "." + p.next().s
	}
	return s
}

func (p *eparser) unary() *Expr {
	if p.is("!") || p.is("-") || p.is("*") {
		o := p.next().s
		return &Expr{K: "unary", S: o, A: []*Expr{p.unary()}, Line: p.line}
	}
	return p.postfix(p.primary())
}

func (p *eparser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.isID("is"):
			p.next()
			e = &Expr{K: "is", T: p.typeName(), A: []*Expr{e}, Line: p.line}
		case p.is("."):
			p.next()
			if p.is("(") {
				p.next()
				t := p.typeName()
				p.want(")")
				e = &Expr{K: "assert", T: t, A: []*Expr{e}, Line: p.line}
				continue
			}
			n := p.next().s
			if p.is("(") { // qualified call: pkg.name(...) or ghost
				p.next()
				args := p.args()
				e = &Expr{K: "call", S: e.String() + "." + n, A: args, Line: p.line}
				continue
			}
			e = &Expr{K: "field", S: n, A: []*Expr{e}, Line: p.line}
		case p.is("["):
			p.next()
			if p.is("..") || p.is(":") {
				p.next()
				p.want("]")
				e = &Expr{K: "whole", A: []*Expr{e}, Line: p.line}
				continue
			}
			i := p.expr(0)
			if p.is(":") {
				p.next()
				j := p.expr(0)
				p.want("]")
				e = &Expr{K: "slice", A: []*Expr{e, i, j}, Line: p.line}
				continue
			}
			p.want("]")
			e = &Expr{K: "index", A: []*Expr{e, i}, Line: p.line}
		default:
			return e
		}
	}
}

func (p *eparser) args() []*Expr {
	var out []*Expr
	if p.is(")") {
		p.next()
		return out
	}
	for {
		out = append(out, p.expr(0))
		if p.is(",") {
			p.next()
			continue
		}
		p.want(")")
		return out
	}
}

func (p *eparser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		return &Expr{K: "int", S: t.s, Line: p.line}
	case "str":
		return &Expr{K: "str", S: t.s, Line: p.line}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.want(")")
			return e
		}
	case "id":
		switch t.s {
		case "true", "false", "nil":
			return &Expr{K: t.s, Line: p.line}
		}
		if p.is("(") {
			p.next()
			if t.s == "is" {
				e := p.expr(0)
				p.want(",")
				ty := p.typeName()
				p.want(")")
				return &Expr{K: "is", T: ty, A: []*Expr{e}, Line: p.line}
			}
			args := p.args()
			if t.s == "old" {
				return &Expr{K: "old", A: args, Line: p.line}
			}
			return &Expr{K: "call", S: t.s, A: args, Line: p.line}
		}
		return &Expr{K: "id", S: t.s, Line: p.line}
	}
	panic(fmt.Errorf("%s: unexpected %q", p.line, t.s))
}

// ---- declarations ----

// Clause is one specification clause.
type Clause struct {
	Kind  string // requires ensures panics ...
	Tags  []string
	Label string
	E     *Expr
	Src   string
	Line  string
	By    string // lemma: the variable of the induction
}

// Contract is the specification of one function.
type Contract struct {
	Key      string
	Params   []string
	Results  []string
	Extern   bool
	Props    []string
	Requires []*Clause
	Ensures  []*Clause
	Panics   []*Clause // internal panic allowed when
	PanicEns []*Clause
	Logs     []*Clause // history variables set by every return of the function, seen by its callers
	PanLogs  []*Clause // and by every panic
	AbortEns []*Clause // hold when the function itself (not something it called) panics
	Modifies []*Expr
	Assumes  []*Clause
	Locks    []*Expr
	Loops    []*Clause
	Lets     map[string]*Expr
	MayPanic bool // the environment may panic
	Pure     bool
	Fresh    map[string]bool
	Allocs   []string
	Owned    map[string]bool // fresh byte storage that belongs to another object
	Donates  []string
	Immut    []string // results / params that are immutable storage
	Inline   bool
	Opaque   bool     // called through its contract even inside its package
	Nilable  bool     // the receiver may be nil
	NoPanic  bool     // nothing it calls panics either
	Also     []string // other functions with the same contract
	Refines  []string // interface method contracts it implements
	Line     string
	used     int
}

// TypeSpec is the specification of a named struct type.
type TypeSpec struct {
	Name   string
	Lock   string // mutex field
	Rank   int
	Guard  []string // fields guarded by Lock
	Joint  []string // fields (and ghosts) written only under own lock and the common lock, readable under either
	Via    string   // path from self to the common, for joint fields
	Owns   []string // slice fields whose storage the object owns
	Immut  []string // slice fields whose storage nobody modifies
	Ghost  []GhostField
	Env    []string // ghost globals shared under the lock
	Token  string   // ref-count field
	Holds  string   // path to the token-counted object
	When   *Expr    // holds one token when
	Inv    []*Clause
	Bound  []*Clause // assumed whenever the lock is taken
	Attach string    // map field listing attached objects (ghost att)
	Line   string
	Const  []string // fields never written after construction
	Modifs []string
}

// GhostField is a ghost field of a type.
type GhostField struct {
	Name string
	Sort Sort
	Init *Expr
}

// Model says which field of a type represents a ghost variable indexed by an
// interface value whose dynamic type is a pointer to that type (or to one
// that embeds it).
type Model struct{ Type, Field string }

// Define is a macro.
type Define struct {
	Name   string
	Params []string
	E      *Expr
}

// Spec is the set of all specifications.
type Spec struct {
	Funcs   map[string]*Contract
	Types   map[string]*TypeSpec
	Ghosts  map[string]Sort     // ghost global variables
	Fns     map[string]*GhostFn // uninterpreted functions
	Defs    map[string]*Define  // macros
	Foots   map[string]*Footprint
	Axioms  []*Clause // trusted axioms
	Models  map[string]*Model
	Globals map[string]*Clause  // properties of package variables
	Mutable map[string]bool     // package variables that may change
	Ifaces  map[string][]string // interface contract -> implementing types to check
}

// GhostFn is an uninterpreted function.
type GhostFn struct {
	Args []Sort
	Res  Sort
}

func newSpec() *Spec {
	return &Spec{Funcs: map[string]*Contract{}, Types: map[string]*TypeSpec{}, Ghosts: map[string]Sort{}, Fns: map[string]*GhostFn{},
		Defs: map[string]*Define{}, Foots: map[string]*Footprint{}, Models: map[string]*Model{}, Globals: map[string]*Clause{}, Mutable: map[string]bool{}, Ifaces: map[string][]string{}}
}

func sortOf(name string) Sort {
	switch name {
	case "Int", "int", "Ref":
		return SInt
	case "Bool", "bool":
		return SBool
	case "Str", "string":
		return SStr
	case "Iface":
		return SIface
	case "Flt":
		return SFlt
	}
	if strings.HasPrefix(name, "map ") {
		f := strings.Fields(name)
		return ArrOf(sortOf(f[1]), sortOf(strings.Join(f[2:], " ")))
	}
	panic("unknown sort " + name)
}

var topKw = map[string]bool{"footprint": true, "ghost": true, "define": true, "type": true, "func": true, "extern": true, "axiom": true, "lemma": true, "model": true, "mutable": true, "implements": true, "global": true}
var clauseKw = map[string]bool{"props": true, "requires": true, "ensures": true, "panics": true, "panic-ensures": true, "abort-ensures": true, "modifies": true, "assumes": true,
	"locks": true, "loop": true, "let": true, "maypanic": true, "pure": true, "fresh": true, "owned": true, "donates": true, "immutable": true, "allocates": true, "inline": true, "opaque": true, "nopanic": true, "nilable": true, "also": true, "refines": true, "mightpanic": true, "logs": true, "panic-logs": true,
	"lock": true, "guard": true, "joint": true, "owns": true, "ghost": true, "env": true, "token": true, "holds": true, "inv": true, "attach": true, "const": true, "}": true}

// Footprint is a named list of modified locations.
type Footprint struct {
	Params []string
	List   []*Expr
}

// substE replaces identifiers in x.
func substE(x *Expr, m map[string]*Expr) *Expr {
	if x == nil {
		return nil
	}
	if x.K == "id" {
		if r, ok := m[x.S]; ok {
			return r
		}
		return x
	}
	y := *x
	y.A = make([]*Expr, len(x.A))
	for i, a := range x.A {
		y.A[i] = substE(a, m)
	}
	return &y
}

// expand replaces definitions and let-bound names by what they stand for.
func (S *Spec) expand(x *Expr, lets map[string]*Expr, dep int) *Expr {
	if x == nil || dep > 40 {
		return x
	}
	if x.K == "id" {
		if l := lets[x.S]; l != nil {
			return S.expand(l, lets, dep+1)
		}
		return x
	}
	if x.K == "call" {
		if d := S.Defs[x.S]; d != nil && len(d.Params) == len(x.A) {
			m := map[string]*Expr{}
			for i, p := range d.Params {
				m[strings.TrimPrefix(p, "@")] = S.expand(x.A[i], lets, dep+1)
			}
			return S.expand(substE(d.E, m), nil, dep+1)
		}
	}
	y := *x
	y.A = make([]*Expr, len(x.A))
	for i, a := range x.A {
		y.A[i] = S.expand(a, lets, dep+1)
	}
	return &y
}

// ParseSpecDir reads all *.spec files of a directory.
func ParseSpecDir(dir string) (*Spec, error) {
	S := newSpec()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := S.parse(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	for _, k := range sortedKeys(S.Funcs) {
		c := S.Funcs[k]
		var ms []*Expr
		for _, m := range c.Modifies {
			f := S.Foots[m.S]
			if m.K != "call" || f == nil {
				ms = append(ms, m)
				continue
			}
			sub := map[string]*Expr{}
			for i, p := range f.Params {
				sub[p] = m.A[i]
			}
			for _, x := range f.List {
				ms = append(ms, substE(x, sub))
			}
		}
		c.Modifies = ms
		for _, a := range c.Also {
			if S.Funcs[a] != nil {
				return nil, fmt.Errorf("duplicate contract %s", a)
			}
			d := *c
			d.Key, d.Also = a, nil
			S.Funcs[a] = &d
		}
	}
	return S, nil
}

type logical struct {
	kw   string
	rest string
	line string
}

func (S *Spec) parse(file, src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			err = fmt.Errorf("%v", r)
		}
	}()
	// gather logical lines
	var ls []logical
	for n, raw := range strings.Split(src, "\n") {
		s := raw
		if i := strings.Index(s, "#"); i >= 0 && !strings.Contains(s[:i], "\"") {
			s = s[:i]
		}
		t := strings.TrimSpace(s)
		if t == "" {
			continue
		}
		kw := t
		if i := strings.IndexAny(t, " \t["); i >= 0 {
			kw = t[:i]
		}
		kw = strings.TrimSuffix(kw, ":")
		indented := s[0] == ' ' || s[0] == '\t'
		if (!indented && topKw[kw]) || (indented && clauseKw[kw]) || t == "}" {
			ls = append(ls, logical{kw, strings.TrimSpace(strings.TrimPrefix(t[len(kw):], ":")), fmt.Sprintf("%s:%d", file, n+1)})
		} else if len(ls) > 0 {
			ls[len(ls)-1].rest += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", file, n+1, t)
		}
	}
	var curF *Contract
	var curT *TypeSpec
	for _, l := range ls {
		fail := func(f string, a ...interface{}) { panic(fmt.Errorf("%s: "+f, append([]interface{}{l.line}, a...)...)) }
		if l.kw == "}" {
			curF, curT = nil, nil
			continue
		}
		if curF == nil && curT == nil {
			switch l.kw {
			case "ghost":
				// ghost var name : sort | ghost fn name(sorts) sort
				f := strings.Fields(l.rest)
				if f[0] == "var" {
					i := strings.Index(l.rest, ":")
					name := strings.TrimSpace(l.rest[4:i])
					S.Ghosts[name] = sortOf(strings.TrimSpace(l.rest[i+1:]))
				} else if f[0] == "fn" {
					r := strings.TrimSpace(l.rest[3:])
					i, j := strings.Index(r, "("), strings.LastIndex(r, ")")
					g := &GhostFn{Res: sortOf(strings.TrimSpace(r[j+1:]))}
					for _, a := range strings.Split(r[i+1:j], ",") {
						if a = strings.TrimSpace(a); a != "" {
							g.Args = append(g.Args, sortOf(a))
						}
					}
					S.Fns[strings.TrimSpace(r[:i])] = g
				} else {
					fail("bad ghost")
				}
			case "define":
				i := strings.Index(l.rest, "=")
				h := strings.TrimSpace(l.rest[:i])
				d := &Define{Name: h}
				if k := strings.Index(h, "("); k >= 0 {
					d.Name = h[:k]
					for _, a := range strings.Split(strings.TrimSuffix(h[k+1:], ")"), ",") {
						if a = strings.TrimSpace(a); a != "" {
							d.Params = append(d.Params, a)
						}
					}
				}
				e, err := parseExpr(l.rest[i+1:], l.line)
				if err != nil {
					return err
				}
				d.E = e
				S.Defs[d.Name] = d
			case "footprint":
				i := strings.Index(l.rest, "=")
				h := strings.TrimSpace(l.rest[:i])
				k := strings.Index(h, "(")
				f := &Footprint{Params: splitNames(strings.TrimSuffix(h[k+1:], ")"))}
				for _, x := range splitTop(l.rest[i+1:]) {
					e, err := parseExpr(x, l.line)
					if err != nil {
						return err
					}
					f.List = append(f.List, e)
				}
				S.Foots[h[:k]] = f
			case "axiom":
				S.Axioms = append(S.Axioms, S.clause("axiom", l.rest, l.line))
			case "lemma":
				// lemma by i [tags:label] forall (i : Int, ...) {patterns} :: e
				by := ""
				r := l.rest
				if strings.HasPrefix(r, "by ") {
					f := strings.SplitN(r, " ", 3)
					by, r = f[1], f[2]
				}
				c := S.clause("lemma", r, l.line)
				if c.E.K != "forallm" || len(c.Tags) == 0 {
					return fmt.Errorf("%s: a lemma is tagged and starts with forall (...)", l.line)
				}
				c.By = by
				S.Axioms = append(S.Axioms, c)
			case "global":
				c := S.clause("global", l.rest, l.line)
				S.Globals[l.line] = c
			case "model":
				// model ghost = *pkg.Type.field
				f := strings.SplitN(l.rest, "=", 2)
				r := strings.TrimSpace(f[1])
				k := strings.LastIndex(r, ".")
				S.Models[strings.TrimSpace(f[0])] = &Model{Type: strings.TrimPrefix(r[:k], "*"), Field: r[k+1:]}
			case "mutable":
				for _, f := range strings.Fields(l.rest) {
					S.Mutable[f] = true
				}
			case "implements":
				// implements iface: T1 T2
				i := strings.Index(l.rest, ":")
				S.Ifaces[strings.TrimSpace(l.rest[:i])] = strings.Fields(l.rest[i+1:])
			case "type":
				h := strings.TrimSpace(strings.TrimSuffix(l.rest, "{"))
				curT = &TypeSpec{Name: h, Line: l.line}
				S.Types[h] = curT
			case "func", "extern":
				h := strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(l.rest), "{"))
				ext := l.kw == "extern"
				if ext {
					h = strings.TrimSpace(strings.TrimPrefix(h, "func"))
				}
				empty := strings.HasSuffix(l.rest, "}")
				if empty {
					h = strings.TrimSpace(l.rest[:strings.LastIndex(l.rest, "{")])
					if ext {
						h = strings.TrimSpace(strings.TrimPrefix(h, "func"))
					}
				}
				c := &Contract{Extern: ext, Lets: map[string]*Expr{}, Fresh: map[string]bool{}, Owned: map[string]bool{}, Line: l.line}
				// key: up to the parameter list "("; the key may start with "("
				st := 0
				if strings.HasPrefix(h, "(") {
					st = strings.Index(h, ")") + 1
				}
				if strings.HasPrefix(h, "\"") {
					st = strings.Index(h[1:], "\"") + 2
				}
				i := st + strings.Index(h[st:], "(")
				c.Key = strings.Trim(strings.TrimSpace(h[:i]), "\"")
				rest := h[i:]
				j := strings.Index(rest, ")")
				c.Params = splitNames(rest[1:j])
				rest = strings.TrimSpace(rest[j+1:])
				if rest != "" {
					c.Results = splitNames(strings.Trim(rest, "()"))
				}
				if S.Funcs[c.Key] != nil {
					fail("duplicate contract %s", c.Key)
				}
				S.Funcs[c.Key] = c
				if !empty {
					curF = c
				}
			default:
				fail("unexpected %q", l.kw)
			}
			continue
		}
		if curT != nil {
			t := curT
			switch l.kw {
			case "lock":
				f := strings.Fields(l.rest)
				t.Lock = f[0]
				if len(f) == 3 {
					fmt.Sscan(f[2], &t.Rank)
				}
			case "guard":
				t.Guard = append(t.Guard, strings.Fields(l.rest)...)
			case "const":
				t.Const = append(t.Const, strings.Fields(l.rest)...)
			case "joint":
				f := strings.Fields(l.rest)
				t.Via = f[len(f)-1]
				t.Joint = append(t.Joint, f[:len(f)-2]...) // "... via common"
			case "owns":
				t.Owns = append(t.Owns, strings.Fields(l.rest)...)
			case "immutable":
				t.Immut = append(t.Immut, strings.Fields(l.rest)...)
			case "ghost":
				// ghost name Sort [= init]
				r := l.rest
				var init *Expr
				if i := strings.Index(r, "="); i >= 0 {
					e, err := parseExpr(r[i+1:], l.line)
					if err != nil {
						return err
					}
					init = e
					r = r[:i]
				}
				f := strings.Fields(r)
				t.Ghost = append(t.Ghost, GhostField{f[0], sortOf(strings.Join(f[1:], " ")), init})
			case "env":
				t.Env = append(t.Env, strings.Fields(l.rest)...)
			case "token":
				t.Token = strings.TrimSpace(l.rest)
			case "attach":
				t.Attach = strings.TrimSpace(l.rest)
			case "holds":
				i := strings.Index(l.rest, " when ")
				t.Holds = strings.TrimSpace(l.rest[:i])
				e, err := parseExpr(l.rest[i+6:], l.line)
				if err != nil {
					return err
				}
				t.When = e
			case "assumes":
				t.Bound = append(t.Bound, S.clause("assumes", l.rest, l.line))
			case "inv":
				t.Inv = append(t.Inv, S.clause("inv", l.rest, l.line))
			default:
				fail("unexpected %q in type", l.kw)
			}
			continue
		}
		c := curF
		switch l.kw {
		case "props":
			c.Props = append(c.Props, strings.Fields(l.rest)...)
		case "requires":
			c.Requires = append(c.Requires, S.clause(l.kw, l.rest, l.line))
		case "assumes":
			c.Assumes = append(c.Assumes, S.clause(l.kw, l.rest, l.line))
		case "ensures":
			c.Ensures = append(c.Ensures, S.clause(l.kw, l.rest, l.line))
		case "panics":
			r := l.rest
			cl := S.clause(l.kw, strings.Replace(r, "when ", "", 1), l.line)
			c.Panics = append(c.Panics, cl)
		case "panic-ensures":
			c.PanicEns = append(c.PanicEns, S.clause(l.kw, l.rest, l.line))
		case "logs":
			c.Logs = append(c.Logs, S.clause(l.kw, l.rest, l.line))
		case "panic-logs":
			c.PanLogs = append(c.PanLogs, S.clause(l.kw, l.rest, l.line))
		case "abort-ensures":
			c.AbortEns = append(c.AbortEns, S.clause(l.kw, l.rest, l.line))
		case "modifies":
			for _, x := range splitTop(l.rest) {
				e, err := parseExpr(x, l.line)
				if err != nil {
					return err
				}
				c.Modifies = append(c.Modifies, e)
			}
		case "locks":
			for _, x := range splitTop(l.rest) {
				e, err := parseExpr(x, l.line)
				if err != nil {
					return err
				}
				c.Locks = append(c.Locks, e)
			}
		case "loop":
			c.Loops = append(c.Loops, S.clause(l.kw, l.rest, l.line))
		case "let":
			i := strings.Index(l.rest, "=")
			e, err := parseExpr(l.rest[i+1:], l.line)
			if err != nil {
				return err
			}
			c.Lets[strings.TrimSpace(l.rest[:i])] = e
		case "maypanic":
			c.MayPanic = true
		case "pure":
			c.Pure = true
		case "nilable":
			c.Nilable = true
		case "nopanic":
			c.NoPanic = true
		case "also":
			for _, f := range strings.Split(l.rest, ";") {
				c.Also = append(c.Also, strings.TrimSpace(f))
			}
		case "refines":
			c.Refines = append(c.Refines, strings.TrimSpace(l.rest))
		case "inline":
			c.Inline = true
		case "opaque":
			c.Opaque = true
		case "mightpanic":
			c.Panics = append(c.Panics, S.clause(l.kw, strings.Replace(l.rest, "when ", "", 1), l.line))
		case "fresh":
			for _, f := range strings.Fields(l.rest) {
				c.Fresh[f] = true
			}
		case "allocates": // an extern's own new memory, named in its postconditions
			if !c.Extern {
				fail("allocates is for externs")
			}
			c.Allocs = append(c.Allocs, strings.Fields(l.rest)...)
		case "owned":
			for _, f := range strings.Fields(l.rest) {
				c.Fresh[f] = true
				c.Owned[f] = true
			}
		case "donates":
			c.Donates = append(c.Donates, strings.Fields(l.rest)...)
		case "immutable":
			c.Immut = append(c.Immut, strings.Fields(l.rest)...)
		default:
			fail("unexpected %q in func", l.kw)
		}
	}
	return nil
}

func splitNames(s string) []string {
	var out []string
	for _, a := range strings.Split(s, ",") {
		if a = strings.TrimSpace(a); a != "" {
			out = append(out, a)
		}
	}
	return out
}

// splitTop splits at top-level commas.
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if r := strings.TrimSpace(s[st:]); r != "" {
		out = append(out, r)
	}
	return out
}

// clause parses "[C01 C02:label] expr".
func (S *Spec) clause(kind, rest, line string) *Clause {
	c := &Clause{Kind: kind, Line: line}
	rest = strings.TrimSpace(rest)
	if strings.HasPrefix(rest, "[") {
		j := strings.Index(rest, "]")
		h := rest[1:j]
		rest = rest[j+1:]
		if i := strings.Index(h, ":"); i >= 0 {
			c.Label = strings.TrimSpace(h[i+1:])
			h = h[:i]
		}
		c.Tags = strings.Fields(h)
	}
	c.Src = strings.TrimSpace(rest)
	e, err := parseExpr(rest, line)
	if err != nil {
		panic(err)
	}
	c.E = e
	if c.Label == "" {
		c.Label = kind
	}
	return c
}
