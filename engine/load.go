package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// load builds SSA for the harness module and everything it imports, from the
// sources as they are on disk now.
func load(dir string, env []string) *Prog {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   dir,
		Env:   env,
		Tests: false,
	}
	initial, err := packages.Load(cfg, "vharness/h")
	if err != nil {
		fatalf("load: %v", err)
	}
	bad := false
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			if strings.HasPrefix(p.PkgPath, "vharness") || strings.Contains(p.PkgPath, "jzon") {
				bad = true
			}
		}
	})
	if bad || len(initial) == 0 {
		fatalf("the harness does not compile against the current tree")
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	prog.Build()
	p := &Prog{prog: prog, pkgs: pkgs, fset: prog.Fset, byPath: map[string]*ssa.Package{}, link: map[string]string{}}
	p.sizes = types.SizesFor("gc", "amd64")
	for _, sp := range prog.AllPackages() {
		p.byPath[sp.Pkg.Path()] = sp
	}
	packages.Visit(initial, nil, func(pk *packages.Package) {
		for _, f := range pk.Syntax {
			scanLink(p, pk.PkgPath, f)
		}
		for _, imp := range pk.Imports {
			_ = imp
		}
	})
	return p
}

func scanLink(p *Prog, path string, f *ast.File) {
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if !strings.HasPrefix(c.Text, "//go:linkname ") {
				continue
			}
			fs := strings.Fields(c.Text)
			if len(fs) == 3 {
				p.link[path+"."+fs[1]] = fs[2]
			}
		}
	}
}

// boot runs the package initialisers in dependency order.
func (m *Machine) boot() {
	m.booting = true
	seen := map[*types.Package]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		for _, q := range tp.Imports() {
			visit(q)
		}
		sp := m.p.byPath[tp.Path()]
		if sp == nil || !initOK(tp.Path()) && tp.Path() != "internal/cpu" {
			return
		}
		m.inited[sp] = true
	}
	for _, sp := range m.p.pkgs {
		visit(sp.Pkg)
	}
	for _, sp := range m.p.pkgs {
		if f := sp.Func("init"); f != nil {
			m.maxStep = 200_000_000
			if msg := m.concrete(f); msg != "" {
				fatalf("initialisation: %s", msg)
			}
		}
	}
	m.maxStep = 5_000_000
	m.freeze()
}

// concrete runs a function with no symbolic input, outside any path, and tells why it failed.
func (m *Machine) concrete(f *ssa.Function) (msg string) {
	m.path = nil
	m.steps, m.depth, m.sp = 0, 0, 0
	m.curFn = m.curFn[:0]
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				msg = fmt.Sprintf("unsupported: %s %s", x.msg, m.where())
			case *goPanic:
				msg = fmt.Sprintf("panic: %s %s", x.msg, m.where())
			default:
				msg = fmt.Sprintf("%v%s", r, m.where())
			}
		}
	}()
	m.call(m.codeOf(f), nil, nil)
	return ""
}

func (m *Machine) freeze() {
	m.booting = false
	m.basePools = map[poolKey][][2]W{}
	for k, v := range m.pools {
		m.basePools[k] = append([][2]W(nil), v...)
	}
}

// setup runs a harness's setup function once, into the base heap.
func (m *Machine) setup(f *ssa.Function) string {
	m.revert()
	m.resetPools()
	m.booting = true
	m.maxStep = 200_000_000
	msg := m.concrete(f)
	m.maxStep = 5_000_000
	m.freeze()
	return msg
}
