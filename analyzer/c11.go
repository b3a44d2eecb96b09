package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{
		id:        "C11",
		technique: "interprocedural may-alias (ownership) analysis of every write to an object that may be a package-level definition",
		assumptions: []string{
			"objects are abstracted by the package variable that holds them; objects hanging below a shared object are not followed",
			"package initialisation (variable initialisers and what only they call) may fill definitions in",
		},
		run: checkC11,
	})
}

func checkC11(r *repo, x *result) {
	x.rule("field", "no field, element or map entry is set through a value that may be a package-level definition")
	x.rule("assign", "no package-level definition is assigned outside package initialisation")
	x.rule("builtin", "delete, clear, copy, maps.Copy and in-place sorts are not applied to package-level containers")
	x.rule("generate", "running a command changes no object that existed before it: neither the project nor any definition in it")
	running := r.reach(r.spkgs[r.main].Func("main"))
	s := newShared(r, running)
	x.analysed["package-level definitions"] = len(s.globals)
	for _, f := range r.funcs {
		if _, ok := running[f]; !ok {
			continue
		}
		x.analysed["functions"]++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch c := in.(type) {
				case *ssa.Store:
					c11Store(r, x, s, f, c)
				case *ssa.MapUpdate:
					x.oblige("field")
					c11Shared(r, x, s, f, in, "field", c.Map, "an entry")
				case ssa.CallInstruction:
					c11Call(r, x, s, f, c)
				}
			}
		}
	}
	c11Generate(r, x)
	if x.analysed["package-level definitions"] < 100 {
		x.fail("vacuous", "definitions", "-", "only %d package-level definitions found", x.analysed["package-level definitions"])
	}
	x.atLeast("field", 400)
	x.atLeast("generate", 100)
}

func c11Store(r *repo, x *result, s *sharedAnalysis, f *ssa.Function, st *ssa.Store) {
	what := ""
	switch a := st.Addr.(type) {
	case *ssa.FieldAddr:
		what = fieldName(a)
	case *ssa.IndexAddr:
		what = "an element"
	}
	addr := outerObject(st.Addr)
	if g, ok := addr.(*ssa.Global); ok {
		if !isDefinition(r, g.Type().(*types.Pointer).Elem()) {
			return
		}
		x.oblige("assign")
		x.fail("assign", fname(f)+" sets "+g.Name(), r.pos(st.Pos()), "%s changes the shared %s while the compiler runs", fname(f), g.Name())
		return
	}
	if what == "" {
		return
	}
	x.oblige("field")
	c11Shared(r, x, s, f, st, "field", addr, what)
}

// outerObject: the address of a field inside nested structs belongs to the outermost object.
func outerObject(addr ssa.Value) ssa.Value {
	for {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			addr = a.X
		case *ssa.IndexAddr:
			addr = a.X
		default:
			return addr
		}
	}
}

func c11Shared(r *repo, x *result, s *sharedAnalysis, f *ssa.Function, in ssa.Instruction, rule string, obj ssa.Value, what string) {
	var o origins
	if _, ok := obj.(*ssa.Alloc); !ok { // a local variable or new object is the function's own
		o = s.at(obj, in.Block())
	}
	if len(o) == 0 {
		x.sample(rule, fname(f)+" sets "+what+" of an object of its own")
		return
	}
	names := s.names(o)
	if len(names) > 5 {
		names = append(names[:5], "...")
	}
	x.fail(rule, fname(f)+" sets "+what, r.pos(in.Pos()), "%s sets %s of an object that may be the shared %s%s",
		fname(f), what, strings.Join(names, ", "), s.why(obj))
}

var c11InPlace = map[string]bool{
	"maps.Copy": true, "maps.DeleteFunc": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true,
	"sort.Strings": true, "slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true, "slices.SortStableFunc": true,
}

func c11Call(r *repo, x *result, s *sharedAnalysis, f *ssa.Function, c ssa.CallInstruction) {
	args := c.Common().Args
	if len(args) == 0 {
		return
	}
	name := ""
	if bi, ok := c.Common().Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "delete", "clear", "copy":
			name = bi.Name()
		}
	} else if g := c.Common().StaticCallee(); g != nil {
		if o := g.Origin(); o != nil {
			g = o
		}
		if g.Pkg != nil && c11InPlace[g.Pkg.Pkg.Path()+"."+g.Name()] {
			name = g.Name()
		}
	}
	if name == "" {
		return
	}
	x.oblige("builtin")
	c11Shared(r, x, s, f, c, "builtin", unwrapInterface(args[0]), "the contents (with "+name+")")
}

func unwrapInterface(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

// why names a call that passes the shared object in.
func (s *sharedAnalysis) why(obj ssa.Value) string {
	p, ok := obj.(*ssa.Parameter)
	if !ok {
		return ""
	}
	idx := -1
	for i, q := range p.Parent().Params {
		if q == p {
			idx = i
		}
	}
	for _, c := range s.r.callers(p.Parent()) {
		if _, ok := s.running[c.Parent()]; !ok {
			continue
		}
		if idx >= 0 && idx < len(c.Common().Args) && len(s.of(c.Common().Args[idx])) > 0 {
			return ", passed in by " + fname(c.Parent()) + " at " + s.r.pos(c.Pos())
		}
	}
	return ""
}

func c11Generate(r *repo, x *result) {
	root := r.fn("ExecuteProjectCommand")
	if root == nil {
		x.fail("vacuous", "ExecuteProjectCommand", "-", "the function that runs one command is gone")
		return
	}
	s := newInput(r, root)
	for _, f := range r.funcs {
		if _, ok := s.only[f]; !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch c := in.(type) {
				case *ssa.Store:
					what := "an element"
					if fa, ok := c.Addr.(*ssa.FieldAddr); ok {
						if !isDefinition(r, fa.X.Type()) {
							continue
						}
						what = fieldName(fa)
					} else if _, ok := c.Addr.(*ssa.IndexAddr); !ok {
						continue
					}
					x.oblige("generate")
					c11Shared(r, x, s, f, c, "generate", outerObject(c.Addr), what)
				case *ssa.MapUpdate:
					x.oblige("generate")
					c11Shared(r, x, s, f, c, "generate", c.Map, "an entry")
				}
			}
		}
	}
}
