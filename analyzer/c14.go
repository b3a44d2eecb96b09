package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{
		id:        "C14",
		technique: "field-transfer analysis of every function that builds a definition from another one of the same kind",
		assumptions: []string{
			"a copy is a function that takes a definition and returns a fresh one of the same struct with at least three fields taken from the same fields of the argument",
			"the body and tests of a copied function and the value of a copied argument are what a copy adapts",
		},
		run: checkC14,
	})
}

// what a copy replaces by design: the copy of a function or argument receives its own body or value
var c14Adapted = map[string]map[string]bool{
	"vxfunc": {"value": true, "listtestvalue": true, "iscopied": true},
	"vxarg":  {"value": true},
}

type transferStore struct {
	in   ssa.Instruction
	from map[int]bool // fields of the original the stored value is computed from
}

type transfer struct {
	stores map[int][]transferStore
	whole  bool
}

func checkC14(r *repo, x *result) {
	x.rule("field", "every field of a copy is set from the same field of the original on every path and not overwritten afterwards, except the fields a copy adapts")
	x.rule("list", "a function that copies a list copies every element of it")
	copies := map[*ssa.Function]bool{}
	for _, f := range r.funcs {
		if f.Parent() != nil || f.Signature.Results().Len() == 0 {
			continue
		}
		for i, p := range f.Params {
			st, named := definitionStruct(r, p.Type())
			if st == nil {
				continue
			}
			for res := 0; res < f.Signature.Results().Len(); res++ {
				if !types.Identical(f.Signature.Results().At(res).Type(), p.Type()) {
					continue
				}
				t := fieldTransfer(r, f, i, res)
				if t == nil {
					continue
				}
				same := 0
				for k, ss := range t.stores {
					for _, s := range ss {
						if s.from[k] {
							same++
							break
						}
					}
				}
				if t.whole && len(f.Params) != 1 {
					continue // sets some fields of its own copy of a value
				}
				if same < 3 && !t.whole {
					continue
				}
				copies[f] = true
				c14Copy(r, x, f, st, named, t)
			}
		}
	}
	x.analysed["copy functions"] = len(copies)
	for f := range copies {
		x.analysed["calls of copy functions"] += len(r.callers(f))
	}
	for _, f := range r.funcs {
		c14List(r, x, f, copies)
	}
	if len(copies) < 4 {
		x.fail("vacuous", "copies", "-", "only %d copy functions found, 4 were confirmed by hand", len(copies))
	}
	x.atLeast("field", 70)
}

func definitionStruct(r *repo, t types.Type) (*types.Struct, string) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != r.vx.Types {
		return nil, ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, ""
	}
	return st, n.Obj().Name()
}

func c14Copy(r *repo, x *result, f *ssa.Function, st *types.Struct, named string, t *transfer) {
	for k := 0; k < st.NumFields(); k++ {
		name := st.Field(k).Name()
		if c14Adapted[named][name] {
			continue
		}
		x.oblige("field")
		key := fname(f) + " " + name
		var good, bad []transferStore
		for _, s := range t.stores[k] {
			if s.from[k] {
				good = append(good, s)
			} else {
				bad = append(bad, s)
			}
		}
		if len(good) == 0 && !t.whole {
			x.fail("field", key, r.pos(f.Pos()), "%s does not carry over %s of a %s", fname(f), name, named)
			continue
		}
		covered := t.whole
		for _, s := range good {
			if always(s.in) || guardedByField(s.in, k) {
				covered = true
			}
		}
		if !covered {
			x.fail("field", key, r.pos(good[0].in.Pos()), "%s carries over %s of a %s on some paths only", fname(f), name, named)
			continue
		}
		for _, s := range bad {
			lost := true
			if t.whole && !zeroConst(s.in.(*ssa.Store).Val) {
				continue
			}
			for _, g := range good {
				if s.in.Parent() == g.in.Parent() && before(s.in, g.in) {
					lost = false // a default set before the attribute is carried over
				}
			}
			if lost {
				x.fail("field", key, r.pos(s.in.Pos()), "%s sets %s of the copy to something else than %s of the original", fname(f), name, name)
			}
		}
		x.sample("field", fname(f)+" carries over "+name)
	}
}

func zeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && (c.Value == nil || c.Value.String() == `""` || c.Value.String() == "false" || c.Value.String() == "0")
}

// always: the instruction is executed on every path that returns.
func always(in ssa.Instruction) bool {
	b := in.Block()
	for _, o := range in.Parent().Blocks {
		if len(o.Instrs) == 0 {
			continue
		}
		if _, ok := o.Instrs[len(o.Instrs)-1].(*ssa.Return); ok && !b.Dominates(o) {
			return false
		}
	}
	return true
}

// guardedByField: whether the instruction runs depends only on the field itself (if x.f {out.f = x.f}).
func guardedByField(in ssa.Instruction, k int) bool {
	b := in.Block()
	p := b.Idom()
	if p == nil || !always(p.Instrs[0]) {
		return false
	}
	br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	fields := map[int]bool{}
	var visit func(v ssa.Value, d int)
	visit = func(v ssa.Value, d int) {
		if d > 6 || v == nil {
			return
		}
		if fa, ok := v.(*ssa.FieldAddr); ok {
			fields[fa.Field] = true
			return
		}
		if fl, ok := v.(*ssa.Field); ok {
			fields[fl.Field] = true
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			var ops [8]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if op != nil && *op != nil {
					visit(*op, d+1)
				}
			}
		}
	}
	visit(br.Cond, 0)
	return fields[k] && len(fields) == 1
}

// fieldTransfer describes how result res of f is filled from parameter par, or nil when the result is
// not an object created by f.
func fieldTransfer(r *repo, f *ssa.Function, par, res int) *transfer {
	out := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if !freshRoots(r, ret.Results[res], out, 0) {
			return nil
		}
	}
	if len(out) == 0 {
		return nil
	}
	t := &transfer{stores: map[int][]transferStore{}}
	collectTransfer(r, f, f.Params[par], out, t, 0)
	return t
}

// freshRoots collects the objects v may be; false when one of them is not created here.
func freshRoots(r *repo, v ssa.Value, out map[ssa.Value]bool, depth int) bool {
	if out[v] {
		return true
	}
	if depth > 8 {
		return false
	}
	switch a := v.(type) {
	case *ssa.Alloc:
		out[a] = true
		return true
	case *ssa.UnOp:
		if al, ok := a.X.(*ssa.Alloc); ok && a.Op == token.MUL {
			out[al] = true
			return true
		}
	case *ssa.Phi:
		for _, e := range a.Edges {
			if !freshRoots(r, e, out, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := a.Call.StaticCallee()
		if g == nil || !r.inModule(g) {
			return false
		}
		// a constructor that is not given the original
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(ret.Results) != 1 || !freshRoots(r, ret.Results[0], map[ssa.Value]bool{}, depth+1) {
					return false
				}
			}
		}
		out[a] = true
		// a value type is kept in a local variable
		for _, ref := range *a.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Val == ssa.Value(a) {
				out[st.Addr] = true
			}
		}
		return true
	}
	return false
}

// collectTransfer records the stores into out whose values come from the fields of orig.
func collectTransfer(r *repo, f *ssa.Function, orig ssa.Value, out map[ssa.Value]bool, t *transfer, depth int) {
	in := map[ssa.Value]bool{orig: true}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok && st.Val == orig {
				if al, ok := st.Addr.(*ssa.Alloc); ok && !out[al] {
					in[al] = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch s := i.(type) {
			case *ssa.Store:
				if out[s.Addr] {
					if in[s.Val] {
						t.whole = true
					} else if u, ok := s.Val.(*ssa.UnOp); ok && u.Op == token.MUL && in[u.X] {
						t.whole = true
					}
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !out[fa.X] {
					continue
				}
				from := map[int]bool{}
				fieldSources(s.Val, in, from, map[ssa.Value]bool{})
				t.stores[fa.Field] = append(t.stores[fa.Field], transferStore{s, from})
			case *ssa.Call:
				g := s.Call.StaticCallee()
				if g == nil || !r.inModule(g) || g == f || depth > 3 {
					continue
				}
				po, pi := -1, -1
				for k, a := range s.Call.Args {
					if out[a] {
						po = k
					}
					if in[a] {
						pi = k
					}
				}
				if po >= 0 && pi >= 0 && always(s) {
					collectTransfer(r, g, g.Params[pi], map[ssa.Value]bool{g.Params[po]: true}, t, depth+1)
				}
			}
		}
	}
}

func fieldSources(v ssa.Value, in map[ssa.Value]bool, from map[int]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch a := v.(type) {
	case *ssa.FieldAddr:
		if in[a.X] {
			from[a.Field] = true
		}
		return
	case *ssa.Field:
		if in[a.X] {
			from[a.Field] = true
			return
		}
		if u, ok := a.X.(*ssa.UnOp); ok && in[u.X] {
			from[a.Field] = true
		}
		return
	}
	if i, ok := v.(ssa.Instruction); ok {
		var ops [8]*ssa.Value
		for _, op := range i.Operands(ops[:0]) {
			if op != nil && *op != nil {
				fieldSources(*op, in, from, seen)
			}
		}
	}
}

// c14List: a loop whose body copies the element it visits contributes a copy in every iteration.
func c14List(r *repo, x *result, f *ssa.Function, copies map[*ssa.Function]bool) {
	if f.Signature.Params().Len() == 0 || f.Signature.Results().Len() == 0 {
		return
	}
	sl, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Slice)
	if !ok || !types.Identical(f.Signature.Results().At(0).Type(), f.Signature.Params().At(0).Type()) {
		return
	}
	if st, _ := definitionStruct(r, sl.Elem()); st == nil {
		return
	}
	for _, l := range naturalLoops(f) {
		uses := false
		for b := range l.body {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && copies[c.Call.StaticCallee()] {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		x.oblige("list")
		if why := everyIterationContributes(l); why != "" {
			x.fail("list", fname(f), r.pos(f.Pos()), "%s does not copy every element: %s", fname(f), why)
		} else {
			x.sample("list", fname(f)+" copies every element")
		}
	}
}
