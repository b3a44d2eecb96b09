package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// repo is the analysed program: type-checked syntax and SSA of /repo/src, tests excluded.
type repo struct {
	root  string // /repo
	fset  *token.FileSet
	pkgs  []*packages.Package // packages of the module, in load order
	main  *packages.Package
	vx    *packages.Package // the compiler package
	core  *packages.Package // the go runtime package
	prog  *ssa.Program
	spkgs map[*packages.Package]*ssa.Package

	funcs    []*ssa.Function // every source function of the module, closures included
	declOf   map[*types.Func]*ast.FuncDecl
	pkgOf    map[*types.Package]*packages.Package
	callersC map[*ssa.Function][]ssa.CallInstruction
}

func loadRepo(root string) (*repo, error) {
	src := filepath.Join(root, "src")
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:   src,
		Fset:  fset,
		Tests: false,
		Env:   os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check:\n%s", strings.Join(errs, "\n"))
	}
	r := &repo{root: root, fset: fset, pkgs: pkgs}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r.prog = prog
	r.spkgs = map[*packages.Package]*ssa.Package{}
	r.pkgOf = map[*types.Package]*packages.Package{}
	r.declOf = map[*types.Func]*ast.FuncDecl{}
	inmod := map[*types.Package]bool{}
	for i, p := range pkgs {
		r.spkgs[p] = spkgs[i]
		r.pkgOf[p.Types] = p
		inmod[p.Types] = true
		switch {
		case p.Name == "main":
			r.main = p
		case strings.HasSuffix(p.PkgPath, "/vx/core"):
			r.core = p
		case strings.HasSuffix(p.PkgPath, "/vxlisp"):
			r.vx = p
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if fn, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						r.declOf[fn] = fd
					}
				}
			}
		}
	}
	if r.main == nil || r.vx == nil || r.core == nil {
		return nil, fmt.Errorf("packages main, vxlisp and vxlisp/vx/core not all found below %s", src)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || fn.Pkg == nil && fn.Parent() == nil {
			continue
		}
		p := fn
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg == nil || !inmod[p.Pkg.Pkg] {
			continue
		}
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		r.funcs = append(r.funcs, fn)
	}
	sort.Slice(r.funcs, func(i, j int) bool {
		a, b := r.funcs[i], r.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return r, nil
}

// fn returns the compiler function of the given name, or nil.
func (r *repo) fn(name string) *ssa.Function {
	if f := r.spkgs[r.vx].Func(name); f != nil {
		return f
	}
	return r.spkgs[r.core].Func(name)
}

// typ returns the named type of the compiler package.
func (r *repo) typ(name string) types.Type {
	if o := r.vx.Types.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

func (r *repo) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := r.fset.Position(p)
	rel, err := filepath.Rel(r.root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// fname is the name a function is reported under.
func fname(f *ssa.Function) string {
	if f.Parent() != nil {
		return fname(f.Parent()) + "$closure"
	}
	if f.Signature.Recv() != nil {
		return f.RelString(f.Pkg.Pkg)
	}
	return f.Name()
}

func (r *repo) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && r.pkgOf[f.Pkg.Pkg] != nil
}

// callees returns the functions of the module a call may reach directly. Dynamic calls are resolved
// to every function of the module with an identical signature whose value is taken.
func (r *repo) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if s := cc.StaticCallee(); s != nil {
		return []*ssa.Function{s}
	}
	var out []*ssa.Function
	if cc.IsInvoke() {
		for _, f := range r.funcs {
			if f.Signature.Recv() != nil && f.Name() == cc.Method.Name() {
				if types.Implements(f.Signature.Recv().Type(), cc.Value.Type().Underlying().(*types.Interface)) {
					out = append(out, f)
				}
			}
		}
		return out
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	for _, f := range r.funcs {
		if f.Signature.Recv() == nil && types.Identical(f.Signature, cc.Signature()) {
			out = append(out, f)
		}
	}
	return out
}

// reach is the set of module functions reachable from the roots; closures count as reached with the
// function that creates them and function values with the function that mentions them.
func (r *repo) reach(roots ...*ssa.Function) map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	add := func(f, by *ssa.Function) {
		if f == nil || f.Blocks == nil || !r.inModule(f) {
			return
		}
		if _, ok := from[f]; ok {
			return
		}
		from[f] = by
		work = append(work, f)
	}
	for _, f := range roots {
		add(f, nil)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range r.callees(c) {
						add(g, f)
					}
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						add(g, f)
					}
				}
			}
		}
	}
	return from
}

func reachPath(from map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var names []string
	for g := f; g != nil; g = from[g] {
		names = append(names, fname(g))
		if len(names) > 40 {
			break
		}
	}
	for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
		names[i], names[j] = names[j], names[i]
	}
	return strings.Join(names, " -> ")
}

// callers returns the static call sites of f inside the module.
func (r *repo) callers(f *ssa.Function) []ssa.CallInstruction {
	if r.callersC == nil {
		r.callersC = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range r.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if s := c.Common().StaticCallee(); s != nil {
							r.callersC[s] = append(r.callersC[s], c)
						}
					}
				}
			}
		}
	}
	return r.callersC[f]
}

func calleeName(c ssa.CallInstruction) string {
	if s := c.Common().StaticCallee(); s != nil {
		if s.Pkg != nil {
			if s.Signature.Recv() != nil {
				return s.RelString(nil)
			}
			return s.Pkg.Pkg.Path() + "." + s.Name()
		}
		return s.String()
	}
	if c.Common().IsInvoke() {
		return c.Common().Method.FullName()
	}
	if b, ok := c.Common().Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "dynamic"
}
