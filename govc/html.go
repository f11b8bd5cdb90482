package main

import (
	"html"
	"html/template"
	"strings"
)

// The ghost function hs(q, s) is the state in which a lexer for HTML that
// starts in state q leaves the text s. The lexer is a finite automaton that
// reads one byte at a time, so that hs(q, a + b) = hs(hs(q, a), b) holds
// exactly. Its states are numbered as they are met; 0 is text between tags,
// 2 and 3 are double and single quoted attribute values. In these three
// escaped text is harmless: no byte of it, escaped, leaves the state
// (escapeKeeps checks that for all of them).
type htmlState struct {
	k    htmlKind
	tag  string // the tag's name, as far as it matters
	name string // the attribute's name, as far as it matters; the end awaited in raw text
	n    int    // how much of the end has been read
}

type htmlKind int

const (
	hText   htmlKind = iota
	hOpen            // after <
	hTag             // in a tag's name
	hBefore          // before an attribute's name
	hAttr            // in an attribute's name
	hAfter           // after an attribute's name
	hValue           // after =
	hDouble          // in a value in double quotes
	hSingle          // in a value in single quotes
	hBare            // in a value without quotes
	hRaw             // in script, style, a comment, ...: up to its end
	hCode            // in a value that is code, double quotes
	hCode1           // the same, single quotes
	hMarkup          // <! or <? up to >
)

var htmlRawTags = []string{"script", "style", "textarea", "title", "iframe", "noembed", "noframes", "noscript", "xmp", "plaintext"}
var htmlCodeAttrs = []string{"style", "srcdoc"}

// htmlWord follows a name as long as it may become one that matters.
func htmlWord(words []string, w string, ch byte) string {
	if w == "*" {
		return w
	}
	if ch >= 'A' && ch <= 'Z' {
		ch += 'a' - 'A'
	}
	w += string(ch)
	for _, x := range words {
		if strings.HasPrefix(x, w) {
			return w
		}
	}
	return "*"
}

func htmlAttr(w string, ch byte) string {
	if w == "on" || w == "o" && (ch == 'n' || ch == 'N') {
		return "on"
	}
	if w == "" && (ch == 'o' || ch == 'O') {
		return "o"
	}
	return htmlWord(htmlCodeAttrs, w, ch)
}

func htmlSpace(ch byte) bool {
	return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\f'
}

func htmlLetter(ch byte) bool { return ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' }

// htmlClose is the state after the > of a tag.
func htmlClose(tag string) htmlState {
	for _, x := range htmlRawTags {
		if x == tag {
			return htmlState{k: hRaw, name: "</" + x}
		}
	}
	return htmlState{}
}

// htmlIn is a state inside a tag, whose name is kept only if it matters.
func htmlIn(k htmlKind, tag, name string) htmlState {
	if htmlClose(tag).k == hText {
		tag = ""
	}
	return htmlState{k: k, tag: tag, name: name}
}

func htmlStep(s htmlState, ch byte) htmlState {
	switch s.k {
	case hText:
		if ch == '<' {
			return htmlState{k: hOpen}
		}
	case hOpen:
		switch {
		case htmlLetter(ch):
			return htmlState{k: hTag, tag: htmlWord(htmlRawTags, "", ch)}
		case ch == '/':
			return htmlState{k: hTag, tag: "*"}
		case ch == '!' || ch == '?':
			return htmlState{k: hMarkup, name: string(ch)}
		default:
			return htmlStep(htmlState{}, ch)
		}
	case hMarkup:
		if s.name == "!-" && ch == '-' {
			return htmlState{k: hRaw, name: "-->"}
		}
		if ch == '>' {
			return htmlState{}
		}
		if s.name == "!" && ch == '-' {
			return htmlState{k: hMarkup, name: "!-"}
		}
		return htmlState{k: hMarkup}
	case hTag:
		switch {
		case ch == '>':
			return htmlClose(s.tag)
		case htmlSpace(ch) || ch == '/':
			return htmlIn(hBefore, s.tag, "")
		}
		return htmlState{k: hTag, tag: htmlWord(htmlRawTags, s.tag, ch)}
	case hBefore:
		switch {
		case ch == '>':
			return htmlClose(s.tag)
		case htmlSpace(ch) || ch == '/':
			return s
		}
		return htmlIn(hAttr, s.tag, htmlAttr("", ch))
	case hAttr, hAfter:
		switch {
		case ch == '>':
			return htmlClose(s.tag)
		case ch == '/':
			return htmlIn(hBefore, s.tag, "")
		case ch == '=':
			return htmlIn(hValue, s.tag, s.name)
		case htmlSpace(ch):
			return htmlIn(hAfter, s.tag, s.name)
		case s.k == hAfter:
			return htmlIn(hAttr, s.tag, htmlAttr("", ch))
		}
		return htmlIn(hAttr, s.tag, htmlAttr(s.name, ch))
	case hValue:
		code := s.name == "on"
		for _, x := range htmlCodeAttrs {
			code = code || x == s.name
		}
		switch {
		case htmlSpace(ch):
			return s
		case ch == '>':
			return htmlClose(s.tag)
		case ch == '"' && code:
			return htmlIn(hCode, s.tag, "")
		case ch == '"':
			return htmlIn(hDouble, s.tag, "")
		case ch == '\'' && code:
			return htmlIn(hCode1, s.tag, "")
		case ch == '\'':
			return htmlIn(hSingle, s.tag, "")
		}
		return htmlIn(hBare, s.tag, "")
	case hDouble, hCode:
		if ch == '"' {
			return htmlIn(hBefore, s.tag, "")
		}
	case hSingle, hCode1:
		if ch == '\'' {
			return htmlIn(hBefore, s.tag, "")
		}
	case hBare:
		switch {
		case ch == '>':
			return htmlClose(s.tag)
		case htmlSpace(ch):
			return htmlIn(hBefore, s.tag, "")
		}
	case hRaw:
		c := ch
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		// the ends have no proper prefix that is also a suffix, but "-" and "--"
		for n := s.n; ; n = 0 {
			if s.name == "-->" && s.n == 2 && c == '-' {
				return s
			}
			if c == s.name[n] {
				if n+1 == len(s.name) {
					if s.name == "-->" {
						return htmlState{}
					}
					return htmlState{k: hTag, tag: "*"}
				}
				return htmlState{k: hRaw, name: s.name, n: n + 1}
			}
			if n == 0 {
				return htmlState{k: hRaw, name: s.name}
			}
		}
	}
	return s
}

func htmlRun(s htmlState, text string) htmlState {
	for i := 0; i < len(text); i++ {
		s = htmlStep(s, text[i])
	}
	return s
}

var htmlSafe = map[int]htmlState{0: {}, 2: {k: hDouble}, 3: {k: hSingle}}

// escapeKeeps: the escaped form of any byte keeps the lexer in each of the
// safe states. (The escaping of a text is that of its bytes in turn.)
func escapeKeeps() string {
	for q, s := range htmlSafe {
		for b := 0; b < 256; b++ {
			x := string([]byte{byte(b)})
			for _, t := range []string{html.EscapeString(x), template.HTMLEscapeString(x)} {
				if htmlRun(s, t) != s {
					return "state " + string(rune('0'+q)) + " is left by " + t
				}
			}
		}
	}
	return ""
}

// htmlAxioms states the value of hs on the literals, in every state that the
// literals can lead to.
func (e *Eng) htmlAxioms() {
	c := e.c
	if x := escapeKeeps(); x != "" {
		unsup("escaping: %s", x)
	}
	ids := map[htmlState]int{}
	byID := map[int]htmlState{}
	add := func(id int, s htmlState) {
		ids[s] = id
		byID[id] = s
	}
	for q, s := range htmlSafe {
		add(q, s)
	}
	next := 10
	type lit struct {
		s string
		t *Term
	}
	var lits []lit
	done := map[string]bool{}
	c.onLit = func(s string, t *Term) {
		lits = append(lits, lit{s, t})
		for again := true; again; {
			again = false
			for q := 0; q < next; q++ {
				st, ok := byID[q]
				if !ok {
					continue
				}
				for i, l := range lits {
					k := string(rune(q)) + ":" + string(rune(i))
					if done[k] {
						continue
					}
					done[k] = true
					to := htmlRun(st, l.s)
					id, ok := ids[to]
					if !ok {
						id = next
						next++
						add(id, to)
						again = true
					}
					c.Axiom(c.Eq(c.App("hs", SInt, c.Int(int64(q)), l.t), c.Int(int64(id))))
				}
			}
		}
	}
	for _, t := range c.litsN {
		if s, ok := c.LitVal(t); ok {
			c.onLit(s, t)
		}
	}
}

func (con *Contract) usesFn(name string) bool {
	for _, cs := range [][]*Clause{con.Requires, con.Ensures, con.Assumes} {
		for _, x := range cs {
			if strings.Contains(x.Src, name+"(") {
				return true
			}
		}
	}
	return false
}
