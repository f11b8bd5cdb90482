package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/chronos-tachyon/morehttp"

// Program is the loaded code under verification.
type Program struct {
	prog     *ssa.Program
	pkgs     []*packages.Package
	ssaPk    []*ssa.Package
	byName   map[string]*types.Package // short name -> package
	funcs    map[string]*ssa.Function  // contract key -> function of the repo
	stored   map[*ssa.Global]bool      // repo globals written outside init
	initOf   map[*ssa.Global]ssa.Value
	promoted map[string]*ssa.Function // methods promoted from embedded fields
	proPkg   map[*ssa.Function]*types.Package
	renamed  []string // declarations given back the name the contracts use
}

// Load loads the repository's packages with all dependencies from source.
// Unexported names that the code has changed since the contracts were written
// (base) are changed back first: see rename.go.
func Load(dir string, base map[string]*layoutPkg) (*Program, error) {
	pkgs, err := loadPkgs(dir, nil)
	if err != nil {
		return nil, err
	}
	var renamed []string
	if base != nil {
		if ov, notes := renameOverlay(pkgs, base); len(ov) > 0 {
			if again, err := loadPkgs(dir, ov); err == nil {
				pkgs, renamed = again, notes
			} else if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "renaming:", notes, err)
			}
		}
	}
	return build(pkgs, renamed)
}

func loadPkgs(dir string, overlay map[string][]byte) ([]*packages.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	cfg.Mode &^= packages.NeedExportFile
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	return pkgs, nil
}

func build(pkgs []*packages.Package, renamed []string) (*Program, error) {
	prog, spk := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{renamed: renamed, prog: prog, pkgs: pkgs, ssaPk: spk, byName: map[string]*types.Package{}, funcs: map[string]*ssa.Function{},
		stored: map[*ssa.Global]bool{}, initOf: map[*ssa.Global]ssa.Value{},
		promoted: map[string]*ssa.Function{}, proPkg: map[*ssa.Function]*types.Package{}}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types == nil {
			return
		}
		n := p.Types.Name()
		old, ok := P.byName[n]
		if !ok || strings.HasPrefix(p.PkgPath, modPath) ||
			(!strings.HasPrefix(old.Path(), modPath) && len(p.PkgPath) < len(old.Path())) {
			P.byName[n] = p.Types
		}
	})
	for _, sp := range spk {
		if sp != nil {
			sp.Build()
		}
	}
	for _, sp := range spk {
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.scan(m)
				if m.Name() == "init" && m.Object() == nil && strings.HasPrefix(sp.Pkg.Path(), modPath) {
					P.funcs[sp.Pkg.Name()+".init"] = m // the package initialiser
				}
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" && fn.Pkg == sp {
							P.scan(fn)
						} else if fn != nil && len(ms.At(i).Index()) > 1 && strings.HasPrefix(sp.Pkg.Path(), modPath) {
							// promoted from an embedded field
							k := "(" + shortPath(t.String()) + ")." + fn.Name()
							P.promoted[k] = fn
							P.proPkg[fn] = sp.Pkg
						}
					}
				}
			}
		}
	}
	for k, fn := range P.promoted {
		if P.funcs[k] == nil {
			P.funcs[k] = fn
		}
	}
	return P, nil
}

func (P *Program) scan(fn *ssa.Function) {
	isInit := strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil
	if fn.Object() != nil {
		P.funcs[funcKey(fn)] = fn
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok {
					if isInit {
						if _, dup := P.initOf[g]; dup {
							P.stored[g] = true
						}
						P.initOf[g] = st.Val
					} else {
						P.stored[g] = true
					}
					continue
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						continue
					}
					if isInit {
						continue
					}
					P.stored[g] = true
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		P.scan(a)
	}
}

func shortPath(s string) string {
	// replace package paths by their last element
	var sb strings.Builder
	i := 0
	for i < len(s) {
		j := i
		for j < len(s) && (s[j] == '/' || s[j] == '.' || s[j] == '-' || s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
			j++
		}
		if j == i {
			sb.WriteByte(s[i])
			i++
			continue
		}
		w := s[i:j]
		if k := strings.LastIndex(w, "/"); k >= 0 {
			w = w[k+1:]
		}
		sb.WriteString(w)
		i = j
	}
	return sb.String()
}

// funcKey is the contract key of a function.
func funcKey(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return objKey(o)
	}
	return shortPath(fn.String())
}

func objKey(o *types.Func) string {
	s := shortPath(o.FullName())
	return s
}

// inRepo reports whether fn belongs to the code under verification.
func inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
