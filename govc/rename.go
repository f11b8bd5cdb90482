package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Contracts name unexported types, fields and package variables. When the
// code under verification has renamed one, the new name is found by comparing
// the declarations with contracts/layout.json (the declarations the contracts
// were written for) and the sources are alpha-renamed back, in an overlay,
// before anything is verified. Renaming is purely lexical: every identifier
// that the type checker resolves to the renamed object is replaced, and the
// result is type-checked again from scratch. A wrong guess can therefore only
// make a proof fail, never make one succeed that should not.

type layoutField struct{ Name, Type string }

type layoutType struct {
	Fields  []layoutField
	Methods []string
}

type layoutPkg struct {
	Types map[string]*layoutType
	Vars  map[string]string
}

func pkgLayout(p *types.Package) *layoutPkg {
	qual := func(q *types.Package) string { return q.Name() }
	L := &layoutPkg{Types: map[string]*layoutType{}, Vars: map[string]string{}}
	for _, n := range p.Scope().Names() {
		switch o := p.Scope().Lookup(n).(type) {
		case *types.TypeName:
			nt, ok := o.Type().(*types.Named)
			if !ok || o.IsAlias() {
				continue
			}
			lt := &layoutType{}
			for i := 0; i < nt.NumMethods(); i++ {
				lt.Methods = append(lt.Methods, nt.Method(i).Name())
			}
			sort.Strings(lt.Methods)
			if s, ok := nt.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					lt.Fields = append(lt.Fields, layoutField{s.Field(i).Name(), types.TypeString(s.Field(i).Type(), qual)})
				}
			} else {
				lt.Fields = append(lt.Fields, layoutField{"", types.TypeString(nt.Underlying(), qual)})
			}
			L.Types[n] = lt
		case *types.Var:
			if !o.Exported() {
				L.Vars[n] = types.TypeString(o.Type(), qual)
			}
		}
	}
	return L
}

func repoLayout(pkgs []*packages.Package) map[string]*layoutPkg {
	out := map[string]*layoutPkg{}
	for _, p := range pkgs {
		if strings.HasPrefix(p.PkgPath, modPath) && p.Types != nil {
			out[p.Types.Name()] = pkgLayout(p.Types)
		}
	}
	return out
}

func readLayout(dir string) map[string]*layoutPkg {
	data, err := os.ReadFile(filepath.Join(dir, "layout.json"))
	if err != nil {
		return nil
	}
	var L map[string]*layoutPkg
	if json.Unmarshal(data, &L) != nil {
		return nil
	}
	return L
}

// replaceWord replaces whole-word occurrences of old.
func replaceWord(s, old, nw string) string {
	isW := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	var sb strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], old) && (i == 0 || !isW(s[i-1])) && (i+len(old) == len(s) || !isW(s[i+len(old)])) {
			sb.WriteString(nw)
			i += len(old)
			continue
		}
		sb.WriteByte(s[i])
		i++
	}
	return sb.String()
}

// renames computes, for one package, the objects to be given another name.
func renames(p *types.Package, base *layoutPkg) map[types.Object]string {
	cur := pkgLayout(p)
	out := map[types.Object]string{}
	unexp := func(n string) bool { return n != "" && !ast.IsExported(n) && n != "_" }
	tmap := map[string]string{} // current name -> base name
	for _, n := range sortedKeys(base.Types) {
		if cur.Types[n] != nil || !unexp(n) {
			continue
		}
		want := base.Types[n]
		var cand []string
		for _, m := range sortedKeys(cur.Types) {
			if base.Types[m] != nil || !unexp(m) || tmap[m] != "" {
				continue
			}
			have := cur.Types[m]
			if (len(have.Fields) == 0) != (len(want.Fields) == 0) {
				continue
			}
			if len(want.Methods) > 0 && subset(exportedOnly(want.Methods), have.Methods) && subset(exportedOnly(have.Methods), want.Methods) {
				// the types whose fields agree best come first
				cand = append(cand, m)
			} else if len(want.Methods) == 0 && sharedFields(want, have)*2 > len(want.Fields) {
				cand = append(cand, m)
			}
		}
		sort.SliceStable(cand, func(i, j int) bool {
			return sharedFields(want, cur.Types[cand[i]])+sharedMethods(want, cur.Types[cand[i]]) >
				sharedFields(want, cur.Types[cand[j]])+sharedMethods(want, cur.Types[cand[j]])
		})
		if len(cand) > 0 {
			tmap[cand[0]] = n
			out[p.Scope().Lookup(cand[0])] = n
		}
	}
	norm := func(t string) string {
		for _, m := range sortedKeys(tmap) {
			t = replaceWord(t, p.Name()+"."+m, p.Name()+"."+tmap[m])
		}
		return t
	}
	for _, m := range sortedKeys(cur.Types) {
		n := m
		if tmap[m] != "" {
			n = tmap[m]
		}
		want := base.Types[n]
		if want == nil {
			continue
		}
		s, ok := p.Scope().Lookup(m).Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		has := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			has[s.Field(i).Name()] = true
		}
		known := map[string]bool{}
		for _, f := range want.Fields {
			known[f.Name] = true
		}
		used := map[int]bool{}
		for _, f := range want.Fields {
			if has[f.Name] || !unexp(f.Name) {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				g := s.Field(i)
				if used[i] || known[g.Name()] || !unexp(g.Name()) || g.Embedded() {
					continue
				}
				if norm(types.TypeString(g.Type(), func(q *types.Package) string { return q.Name() })) == f.Type {
					used[i] = true
					out[g] = f.Name
					break
				}
			}
		}
	}
	for _, n := range sortedKeys(base.Vars) {
		if p.Scope().Lookup(n) != nil {
			continue
		}
		var cand []string
		for _, m := range sortedKeys(cur.Vars) {
			if _, ok := base.Vars[m]; !ok && norm(cur.Vars[m]) == base.Vars[n] {
				cand = append(cand, m)
			}
		}
		if len(cand) == 1 {
			out[p.Scope().Lookup(cand[0])] = n
		}
	}
	return out
}

func exportedOnly(ms []string) []string {
	var out []string
	for _, m := range ms {
		if ast.IsExported(m) {
			out = append(out, m)
		}
	}
	return out
}

func subset(a, b []string) bool {
	for _, x := range a {
		if !isIn(b, x) {
			return false
		}
	}
	return true
}

func sharedMethods(a, b *layoutType) int {
	n := 0
	for _, m := range a.Methods {
		if isIn(b.Methods, m) {
			n++
		}
	}
	return n
}

func sharedFields(a, b *layoutType) int {
	n := 0
	for _, f := range a.Fields {
		for _, g := range b.Fields {
			if f == g {
				n += 2
				break
			} else if f.Name == g.Name {
				n++
				break
			}
		}
	}
	return n
}

// renameOverlay returns the overlay that gives renamed declarations the names
// the contracts use, and a description of what was renamed.
func renameOverlay(pkgs []*packages.Package, base map[string]*layoutPkg) (map[string][]byte, []string) {
	overlay := map[string][]byte{}
	var notes []string
	for _, p := range pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath) || p.Types == nil || base[p.Types.Name()] == nil {
			continue
		}
		ren := renames(p.Types, base[p.Types.Name()])
		// a package-level name must not be captured by an inner declaration
		for o, n := range ren {
			if o.Parent() != p.Types.Scope() {
				continue
			}
			for id, d := range p.TypesInfo.Defs {
				if id.Name == n && d != nil {
					if v, ok := d.(*types.Var); !ok || !v.IsField() {
						delete(ren, o)
					}
				}
			}
		}
		if len(ren) == 0 {
			continue
		}
		for o, n := range ren {
			notes = append(notes, fmt.Sprintf("%s.%s -> %s", p.Types.Name(), o.Name(), n))
		}
		target := func(o types.Object) string {
			if n := ren[o]; n != "" {
				return n
			}
			if v, ok := o.(*types.Var); ok && v.Embedded() {
				t := v.Type()
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				if nt, ok := t.(*types.Named); ok {
					return ren[nt.Obj()]
				}
			}
			return ""
		}
		type edit struct {
			off, n int
			to     string
		}
		edits := map[string][]edit{}
		add := func(id *ast.Ident, o types.Object) {
			if o == nil {
				return
			}
			if n := target(o); n != "" {
				pos := p.Fset.PositionFor(id.Pos(), false)
				edits[pos.Filename] = append(edits[pos.Filename], edit{pos.Offset, len(id.Name), n})
			}
		}
		seen := map[*ast.Ident]bool{}
		for id, o := range p.TypesInfo.Defs {
			if v, ok := o.(*types.Var); ok && v.Embedded() {
				continue // the identifier of an embedded field is a use of its type
			}
			add(id, o)
			seen[id] = true
		}
		for id, o := range p.TypesInfo.Uses {
			if !seen[id] {
				add(id, o)
			}
		}
		for f, es := range edits {
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, nil
			}
			sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
			last := -1
			for _, x := range es {
				if x.off == last {
					continue
				}
				last = x.off
				src = append(append(append([]byte{}, src[:x.off]...), x.to...), src[x.off+x.n:]...)
			}
			overlay[f] = src
		}
	}
	sort.Strings(notes)
	return overlay, notes
}
