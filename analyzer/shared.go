package main

import (
	"go/token"
	"go/types"
	"maps"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sharedness computes, for every pointer or map value of the module, which package-level objects it may
// be. The heap is abstracted by struct field, slice and map by element type of the field they come from;
// calls are context-insensitive.
type origins map[*ssa.Global]bool

type sharedAnalysis struct {
	r       *repo
	val     map[ssa.Value]origins
	field   map[*types.Var]origins // contents of a field, and of the elements of a slice or map in it
	ret     map[*ssa.Function][]origins
	globals map[*ssa.Global]bool
	running map[*ssa.Function]*ssa.Function // functions that run after package initialisation
	changed bool

	only  map[*ssa.Function]*ssa.Function // when set, the part of the program looked at
	input *ssa.Global                     // when set, stands for everything that existed before

	lookups  map[string]*ssa.Global
	lookedUp map[*ssa.Global]types.Type
}

func sharable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		_, ok := u.Elem().Underlying().(*types.Struct)
		return ok
	case *types.Map, *types.Slice:
		return true
	}
	return false
}

func newShared(r *repo, running map[*ssa.Function]*ssa.Function) *sharedAnalysis {
	s := &sharedAnalysis{r: r, val: map[ssa.Value]origins{}, field: map[*types.Var]origins{}, ret: map[*ssa.Function][]origins{}, globals: map[*ssa.Global]bool{}, running: running,
		lookups: map[string]*ssa.Global{}, lookedUp: map[*ssa.Global]types.Type{}}
	for _, p := range []*ssa.Package{r.spkgs[r.vx], r.spkgs[r.core]} {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			if sharable(t) && isDefinition(r, t) {
				s.globals[g] = true
			}
		}
	}
	s.solve()
	return s
}

// isDefinition: the type is a struct of the module, or a pointer, slice or map that leads to one.
func isDefinition(r *repo, t types.Type) bool {
	switch u := t.(type) {
	case *types.Pointer:
		return isDefinition(r, u.Elem())
	case *types.Slice:
		return isDefinition(r, u.Elem())
	case *types.Map:
		return isDefinition(r, u.Elem())
	case *types.Named:
		_, ok := u.Underlying().(*types.Struct)
		return ok && r.pkgOf[u.Obj().Pkg()] != nil
	}
	return false
}

func (s *sharedAnalysis) add(dst origins, src origins) {
	for g := range src {
		if !dst[g] {
			dst[g] = true
			s.changed = true
		}
	}
}

func (s *sharedAnalysis) of(v ssa.Value) origins {
	o := s.val[v]
	if o == nil {
		o = origins{}
		s.val[v] = o
	}
	return o
}

func (s *sharedAnalysis) fieldOrigins(f *types.Var) origins {
	o := s.field[f]
	if o == nil {
		o = origins{}
		s.field[f] = o
	}
	return o
}

func fieldVar(x types.Type, i int) *types.Var {
	t := x.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if st, ok := t.(*types.Struct); ok {
		return st.Field(i)
	}
	return nil
}

func (s *sharedAnalysis) solve() {
	for {
		s.changed = false
		for _, f := range s.r.funcs {
			if s.only != nil {
				if _, ok := s.only[f]; !ok {
					continue
				}
			}
			s.function(f)
		}
		if !s.changed {
			return
		}
	}
}

// place is where an address points: a field (through any object), a global or a local cell.
func (s *sharedAnalysis) placeOrigins(addr ssa.Value) origins {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if fv := fieldVar(a.X.Type(), a.Field); fv != nil {
			return s.fieldOrigins(fv)
		}
	case *ssa.IndexAddr:
		return s.of(a.X) // elements share the origins of their container
	case *ssa.Alloc, *ssa.FreeVar:
		return s.of(addr)
	}
	return nil
}

func (s *sharedAnalysis) function(f *ssa.Function) {
	init := f.Name() == "init" && f.Synthetic != ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					continue
				}
				if g, ok := x.X.(*ssa.Global); ok {
					if s.globals[g] {
						s.add(s.of(x), origins{g: true})
						s.add(s.of(x), s.of(g))
					}
					continue
				}
				if o := s.placeOrigins(x.X); o != nil {
					s.add(s.of(x), o)
				}
				if s.input != nil && s.fromInput(x.X) {
					s.add(s.of(x), origins{s.input: true})
				}
			case *ssa.Store:
				if init {
					if g, ok := x.Addr.(*ssa.Global); ok {
						s.add(s.of(g), s.of(x.Val)) // the definitions a shared list holds
						continue
					}
				}
				if o := s.placeOrigins(x.Addr); o != nil {
					s.add(o, s.in(x.Val, b))
				}
			case *ssa.Phi:
				for i, e := range x.Edges {
					s.add(s.of(x), s.edge(e, b.Preds[i], b))
				}
			case *ssa.MakeInterface:
				s.add(s.of(x), s.sharedOnly(s.of(x.X)))
			case *ssa.TypeAssert:
				s.add(s.of(x), s.of(x.X))
			case *ssa.ChangeType:
				s.add(s.of(x), s.of(x.X))
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok {
					for _, g := range s.r.callees(c) {
						if rs := s.rets(g); x.Index < len(rs) {
							s.add(s.of(x), rs[x.Index])
						}
					}
				} else {
					s.add(s.of(x), s.of(x.Tuple))
				}
			case *ssa.Lookup:
				s.add(s.of(x), s.of(x.X))
				if mt, ok := x.X.Type().Underlying().(*types.Map); ok && !init && sharable(mt.Elem()) && isDefinition(s.r, mt.Elem()) {
					s.add(s.of(x), origins{s.lookup(mt.Elem()): true})
				}
			case *ssa.Next:
				s.add(s.of(x), s.of(x.Iter))
			case *ssa.Range:
				s.add(s.of(x), s.of(x.X))
			case *ssa.Index:
				s.add(s.of(x), s.of(x.X))
			case *ssa.Slice:
				s.add(s.of(x), s.of(x.X))
			case *ssa.Field:
				if fv := fieldVar(x.X.Type(), x.Field); fv != nil {
					s.add(s.of(x), s.fieldOrigins(fv))
				}
			case *ssa.MapUpdate:
				s.add(s.of(x.Map), s.of(x.Value))
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, bnd := range x.Bindings {
					s.add(s.of(fn.FreeVars[i]), s.of(bnd))
					s.add(s.of(bnd), s.of(fn.FreeVars[i]))
				}
			case *ssa.Return:
				rs := s.rets(f)
				for i, v := range x.Results {
					s.add(rs[i], s.in(v, b))
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						for _, a := range x.Call.Args {
							s.add(s.of(x), s.of(a))
						}
					}
					continue
				}
				s.call(x)
				if x.Type() != nil {
					if _, ok := x.Type().(*types.Tuple); !ok {
						for _, g := range s.r.callees(x) {
							if rs := s.rets(g); len(rs) == 1 {
								s.add(s.of(x), rs[0])
							}
						}
					}
				}
			case *ssa.Defer:
				s.call(x)
			case *ssa.Go:
				s.call(x)
			}
		}
	}
}

func (s *sharedAnalysis) rets(f *ssa.Function) []origins {
	rs := s.ret[f]
	if rs == nil {
		rs = make([]origins, f.Signature.Results().Len())
		for i := range rs {
			rs[i] = origins{}
		}
		s.ret[f] = rs
	}
	return rs
}

func (s *sharedAnalysis) call(c ssa.CallInstruction) {
	if _, ok := s.running[c.Parent()]; !ok {
		return // definitions are filled in while the package is initialised
	}
	for _, g := range s.r.callees(c) {
		if g.Blocks == nil || !s.r.inModule(g) {
			continue
		}
		args := c.Common().Args
		if c.Common().IsInvoke() {
			args = append([]ssa.Value{c.Common().Value}, args...)
		}
		for i, a := range args {
			if i < len(g.Params) {
				s.add(s.of(g.Params[i]), s.in(a, c.Block()))
			}
		}
	}
}

// at returns the shared objects v may be when control is in block b: comparisons of v with a shared
// object that dominate b rule objects out.
func (s *sharedAnalysis) at(v ssa.Value, b *ssa.BasicBlock) origins {
	out := origins{}
	for g := range s.of(v) {
		if g == s.input || types.Identical(s.originType(g), v.Type()) {
			out[g] = true
		}
	}
	return s.refine(out, v, b)
}

// refine rules out what the comparisons on the way to b exclude.
func (s *sharedAnalysis) refine(out origins, v ssa.Value, b *ssa.BasicBlock) origins {
	for d := b; d != nil && len(out) > 0; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(d.Preds) != 1 || d.Preds[0] != p {
			continue
		}
		s.refineEdge(out, v, p, d)
	}
	return out
}

func (s *sharedAnalysis) refineEdge(out origins, v ssa.Value, p, d *ssa.BasicBlock) {
	br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return
	}
	cond, pos := br.Cond, p.Succs[0] == d
	for {
		n, ok := cond.(*ssa.UnOp)
		if !ok || n.Op != token.NOT {
			break
		}
		cond, pos = n.X, !pos
	}
	cmp, ok := cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
		return
	}
	if cmp.Op == token.NEQ {
		pos = !pos
	}
	other := cmp.Y
	if sameCell(cmp.Y, v) {
		other = cmp.X
	} else if !sameCell(cmp.X, v) {
		return
	}
	g := s.soleGlobal(other)
	if g == nil {
		return
	}
	if pos {
		for h := range out {
			if h != g {
				delete(out, h)
			}
		}
	} else {
		delete(out, g)
	}
}

func (s *sharedAnalysis) soleGlobal(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return g
		}
	}
	return nil
}

// sameCell: the same value, or two reads of the same field of the same object.
func sameCell(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	if x.X == y.X {
		return true
	}
	p, ok := x.X.(*ssa.FieldAddr)
	q, ok2 := y.X.(*ssa.FieldAddr)
	return ok && ok2 && p.Field == q.Field && sameCell(p.X, q.X)
}

// in is what v may be in block b, edge what it may be on the edge from p to d.
func (s *sharedAnalysis) in(v ssa.Value, b *ssa.BasicBlock) origins {
	o := s.of(v)
	if len(o) == 0 {
		return o
	}
	return s.refine(maps.Clone(o), v, b)
}

func (s *sharedAnalysis) edge(v ssa.Value, p, d *ssa.BasicBlock) origins {
	o := s.of(v)
	if len(o) == 0 {
		return o
	}
	c := s.refine(maps.Clone(o), v, p)
	s.refineEdge(c, v, p, d)
	return c
}

// lookup is the pseudo object every definition found by name in a table stands for. A looked up
// definition belongs to the definition it was read from, so whoever finds it must not change it. What a
// value refers to (an interface) is not followed.
func (s *sharedAnalysis) lookup(t types.Type) *ssa.Global {
	t = elemType(t)
	k := t.String()
	if s.lookups[k] == nil {
		g := &ssa.Global{}
		s.lookups[k] = g
		s.lookedUp[g] = t
	}
	return s.lookups[k]
}

func elemType(t types.Type) types.Type {
	for {
		switch u := t.(type) {
		case *types.Slice:
			t = u.Elem()
		case *types.Map:
			t = u.Elem()
		default:
			return t
		}
	}
}

func (s *sharedAnalysis) sharedOnly(o origins) origins {
	out := origins{}
	for g := range o {
		if s.lookedUp[g] == nil {
			out[g] = true
		}
	}
	return out
}

func (s *sharedAnalysis) originType(g *ssa.Global) types.Type {
	if t := s.lookedUp[g]; t != nil {
		return t
	}
	return g.Type().(*types.Pointer).Elem()
}

func (s *sharedAnalysis) names(o origins) []string {
	var out []string
	for g := range o {
		if g == s.input {
			out = append(out, "definition being compiled")
		} else if t := s.lookedUp[g]; t != nil {
			out = append(out, "definition found by name ("+strings.TrimPrefix(types.TypeString(t, func(*types.Package) string { return "" }), "*")+")")
		} else {
			out = append(out, g.Name())
		}
	}
	sort.Strings(out)
	return out
}

// newInput asks which objects may have existed before the roots were called: their arguments and
// everything loaded from those.
func newInput(r *repo, roots ...*ssa.Function) *sharedAnalysis {
	only := r.reach(roots...)
	s := &sharedAnalysis{r: r, val: map[ssa.Value]origins{}, field: map[*types.Var]origins{}, ret: map[*ssa.Function][]origins{},
		globals: map[*ssa.Global]bool{}, running: only, only: only, input: &ssa.Global{},
		lookups: map[string]*ssa.Global{}, lookedUp: map[*ssa.Global]types.Type{}}
	for _, f := range roots {
		for _, p := range f.Params {
			if sharable(p.Type()) {
				s.of(p)[s.input] = true
			}
		}
	}
	s.solve()
	return s
}

// fromInput: the address lies inside an object that existed before.
func (s *sharedAnalysis) fromInput(addr ssa.Value) bool {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return s.of(a.X)[s.input] || s.fromInput(a.X)
	case *ssa.IndexAddr:
		return s.of(a.X)[s.input] || s.fromInput(a.X)
	}
	return false
}
