package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{
		id:        "C17",
		technique: "interprocedural value analysis on SSA: linear bounds of indexes and lengths from dominating tests, loop induction and call summaries; nil dataflow from lookups, literals and results; tag/payload agreement for conversions",
		assumptions: []string{
			"pointers kept in fields of definitions are set by whoever makes the definition, except those that several places test against nil; nil is followed from these, literals, map entries, results and parameters",
			"code that has a target language at hand runs after validation, so a call of a built-in that it has recognised by name has the arguments of that built-in",
			"a stack is popped as often as it is pushed, and searching for a later occurrence finds a later position",
			"no limit of memory, stack or the operating system is reached",
		},
		run: checkC17,
	})
}

func checkC17(r *repo, x *result) {
	x.rule("bounds", "every index, and both ends of every cut, are inside the list or text whatever was read")
	x.rule("nil", "no missing map entry, literal nil or result that may be nil is followed")
	x.rule("convert", "a payload is converted to a type only under tags that are always set together with a payload of that type")
	x.rule("divide", "no divisor can be zero")
	x.rule("panic", "no explicit panic or fatal exit can be reached")
	reached := r.reach(r.spkgs[r.main].Func("main"))
	e := newBounds(r, reached)
	t := &c17Trust{r: r, e: e}
	if l := r.typ("vxlang"); l != nil {
		t.lang = types.NewPointer(l)
	}
	n := &nilness{r: r, reached: reached, results: map[string]int{}, params: map[*ssa.Parameter]int{}, why: map[ssa.Value]string{}, pairing: map[[2]ssa.Value]bool{}}
	for _, f := range r.funcs {
		if _, ok := reached[f]; !ok || !r.inModule(f) {
			continue
		}
		x.analysed["functions"]++
		seen := map[ssa.Value]bool{}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c17Bounds(r, x, e, t, f, in, point{b, i})
				c17Nil(r, x, n, f, in, seen)
				switch in := in.(type) {
				case *ssa.BinOp:
					c17Divide(r, x, e, f, in, point{b, i})
				case *ssa.TypeAssert:
					if !in.CommaOk {
						x.oblige("convert")
						if why := c17Assert(r, reached, in); why != "" {
							x.fail("convert", fname(f)+" to "+in.AssertedType.String(), r.pos(in.Pos()),
								"%s converts to %s, but %s", fname(f), in.AssertedType, why)
						}
					}
				case *ssa.Panic:
					x.oblige("panic")
					x.fail("panic", fname(f), r.pos(in.Pos()), "%s panics", fname(f))
				case ssa.CallInstruction:
					if g := in.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "log" {
						x.oblige("panic")
						if strings.HasPrefix(g.Name(), "Fatal") || strings.HasPrefix(g.Name(), "Panic") {
							x.fail("panic", fname(f)+" calls log."+g.Name(), r.pos(in.Pos()), "%s calls log.%s", fname(f), g.Name())
						}
					}
				}
			}
		}
	}
	x.analysed["assumed bounds"] = t.used
	x.atLeast("bounds", 150)
	x.atLeast("nil", 4000)
}

// c17Bounds proves that an index or cut stays inside.
func c17Bounds(r *repo, x *result, e *bounds, t *c17Trust, f *ssa.Function, in ssa.Instruction, p point) {
	var of ssa.Value
	var goals []lin
	what := "index"
	switch in := in.(type) {
	case *ssa.IndexAddr:
		if isPointer(in.X.Type()) {
			return
		}
		n := e.num(in.Index)
		of, goals = in.X, []lin{n, e.length(in.X).add(n, -1).plus(-1)}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Basic); !ok {
			return
		}
		n := e.num(in.Index)
		of, goals = in.X, []lin{n, e.length(in.X).add(n, -1).plus(-1)}
	case *ssa.Slice:
		if in.Low == nil && in.High == nil || isPointer(in.X.Type()) {
			return
		}
		what = "cut"
		low, high := konst(0), e.length(in.X)
		if in.Low != nil {
			low = e.num(in.Low)
		}
		if in.High != nil {
			high = e.num(in.High)
			goals = append(goals, e.length(in.X).add(high, -1))
		}
		of, goals = in.X, append(goals, low, high.add(low, -1))
	default:
		return
	}
	x.oblige("bounds")
	x.sample("bounds", r.pos(in.Pos())+" "+what+" in "+fname(f))
	for _, g := range goals {
		if e.holds(g, p) {
			continue
		}
		if t.pop(f, of, g) || t.builtin(g, p) || t.later(g, p) || t.behind(g, p) {
			t.used++
			continue
		}
		x.fail("bounds", fname(f)+" "+what+" of "+c17Name(of), r.pos(in.Pos()),
			"%s: nothing ensures that this %s of %s stays inside (not shown: %s >= 0)", fname(f), what, c17Name(of), c17Lin(g))
	}
}

// c17Divide proves that a divisor is not zero.
func c17Divide(r *repo, x *result, e *bounds, f *ssa.Function, in *ssa.BinOp, p point) {
	if in.Op != token.QUO && in.Op != token.REM || !isInt(in.Type()) {
		return
	}
	x.oblige("divide")
	y := e.num(in.Y)
	if e.holds(y.plus(-1), p) || e.holds(konst(-1).add(y, -1), p) {
		return
	}
	for _, fact := range e.facts(p.b) {
		if !fact.ne && len(fact.f.m) == 0 && fact.f.c < 0 {
			return // never executed
		}
		if fact.ne && !e.killed(fact.f, fact.from, fact.to, p) && (zeroForm(fact.f.add(y, -1)) || zeroForm(fact.f.add(y, 1))) {
			return
		}
	}
	x.fail("divide", fname(f)+" divides by "+c17Name(in.Y), r.pos(in.Pos()), "%s: nothing ensures that the divisor is not zero (%s)", fname(f), c17Lin(y))
}

func zeroForm(l lin) bool { return l.c == 0 && len(l.keys()) == 0 }

func c17Name(v ssa.Value) string {
	root, path := place(v)
	s := root.Name()
	if c, ok := root.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
		s = "result of " + c.Call.StaticCallee().Name()
	} else if _, ok := root.(*ssa.Parameter); !ok {
		s = root.Type().String()
		s = s[strings.LastIndexAny(s, "/.")+1:]
	}
	for _, f := range path {
		s += "." + f.Name()
	}
	return s
}

func c17Lin(l lin) string {
	s := l.String()
	var out strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			for i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
				i++
			}
			continue
		}
		out.WriteByte(s[i])
	}
	return out.String()
}

func c17Nil(r *repo, x *result, n *nilness, f *ssa.Function, in ssa.Instruction, seen map[ssa.Value]bool) {
	var p ssa.Value
	switch in := in.(type) {
	case *ssa.FieldAddr:
		p = in.X
	case *ssa.UnOp:
		if in.Op == token.MUL {
			p = in.X
		}
	case *ssa.Store:
		p = in.Addr
	}
	if p == nil || seen[p] {
		return
	}
	x.oblige("nil")
	if n.mayNil(p, in.Block(), map[ssa.Value]bool{}) {
		seen[p] = true
		why := n.why[p]
		if why != "" {
			why = " (" + why + ")"
		}
		x.fail("nil", fname(f)+" follows "+c17Name(p), r.pos(in.Pos()), "%s follows %s, which may be nil%s", fname(f), c17Name(p), why)
	}
}

// c17Trust is the assumptions about lengths and positions.
type c17Trust struct {
	r    *repo
	e    *bounds
	lang types.Type
	used int
}

// pop: the last element is read and cut off by the same function, that is, it pops a stack.
func (t *c17Trust) pop(f *ssa.Function, of ssa.Value, g lin) bool {
	want := t.e.length(of).plus(-1)
	if d := g.add(want, -1); d.c != 0 || len(d.keys()) != 0 {
		return false
	}
	read, cut := false, false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				read = read || samePlace(in.X, of) && t.same(t.e.num(in.Index), want)
			case *ssa.Slice:
				cut = cut || samePlace(in.X, of) && in.Low == nil && in.High != nil && t.same(t.e.num(in.High), want)
			}
		}
	}
	return read && cut
}

func (t *c17Trust) same(a, b lin) bool {
	d := a.add(b, -1)
	return d.c == 0 && len(d.keys()) == 0
}

// builtin: a built-in recognised by name has its arguments when code is generated.
func (t *c17Trust) builtin(g lin, p point) bool {
	keys := g.keys()
	if len(keys) != 1 || g.m[keys[0]] != 1 || g.c > -1 || g.c < -2 || !strings.HasPrefix(keys[0], "len(") {
		return false
	}
	return t.recognised(p.b, false, 0)
}

func (t *c17Trust) recognised(b *ssa.BasicBlock, tested bool, depth int) bool {
	f := b.Parent()
	for d := b; d != nil && !tested; d = d.Idom() {
		all := len(d.Preds) > 0
		for _, p := range d.Preds {
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			all = all && ok && (p.Succs[0] == d && names(iff.Cond, token.EQL) || p.Succs[1] == d && names(iff.Cond, token.NEQ))
		}
		tested = all
	}
	generates := false
	for _, p := range f.Params {
		generates = generates || t.lang != nil && types.Identical(p.Type(), t.lang)
	}
	if generates && tested {
		return true
	}
	if depth > 2 {
		return false
	}
	n := 0
	for _, c := range t.r.callers(f) {
		if _, ok := t.e.reached[c.Parent()]; !ok {
			continue
		}
		n++
		if !t.recognised(c.Block(), tested, depth+1) {
			return false
		}
	}
	return n > 0
}

// names is a test of a name against a literal or of a definition against a package-level one.
func names(cond ssa.Value, op token.Token) bool {
	c, ok := cond.(*ssa.BinOp)
	if !ok || c.Op != op {
		return false
	}
	for _, v := range []ssa.Value{c.X, c.Y} {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value != nil && v.Value.Kind() == constant.String && constant.StringVal(v.Value) != "" {
				return true
			}
		case *ssa.UnOp:
			if _, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && isPointer(v.Type()) {
				return true
			}
		}
	}
	return false
}

// calls gives the two calls whose difference a goal is about.
func (t *c17Trust) calls(g lin) (pos, neg *ssa.Call) {
	for _, k := range g.keys() {
		a := t.e.atoms[k]
		if a == nil || a.isLen || len(a.path) > 0 {
			return nil, nil
		}
		c, ok := a.root.(*ssa.Call)
		switch {
		case !ok || c.Call.StaticCallee() == nil:
			return nil, nil
		case g.m[k] == 1 && pos == nil:
			pos = c
		case g.m[k] == -1 && neg == nil:
			neg = c
		default:
			return nil, nil
		}
	}
	return pos, neg
}

// later: the same search for a later occurrence gives a later position.
func (t *c17Trust) later(g lin, p point) bool {
	a, b := t.calls(g)
	if a == nil || b == nil || g.c != 0 || a.Call.StaticCallee() != b.Call.StaticCallee() {
		return false
	}
	moved := 0
	for i, v := range a.Call.Args {
		w := b.Call.Args[i]
		if v == w || samePlace(v, w) || sameConst(v, w) {
			continue
		}
		if !isInt(v.Type()) || !t.e.holds(t.e.num(v).add(t.e.num(w), -1), p) {
			return false
		}
		moved++
	}
	return moved == 1 && t.e.holds(t.e.num(a), p)
}

func sameConst(v, w ssa.Value) bool {
	a, ok := v.(*ssa.Const)
	b, ok2 := w.(*ssa.Const)
	return ok && ok2 && a.Value != nil && b.Value != nil && constant.Compare(a.Value, token.EQL, b.Value)
}

// behind: a text found from where a literal was found, whose first character the literal does not have,
// starts behind the literal.
func (t *c17Trust) behind(g lin, p point) bool {
	a, b := t.calls(g)
	if a == nil || b == nil {
		return false
	}
	starts := false
	for _, v := range a.Call.Args {
		starts = starts || v == b
	}
	find, lit := literalArg(a), literalArg(b)
	if !starts || find == "" || lit == "" || strings.Contains(lit, find[:1]) || g.c < -int64(len(lit)) {
		return false
	}
	return t.e.holds(t.e.num(a), p) && t.e.holds(t.e.num(b), p)
}

func literalArg(c *ssa.Call) string {
	s := ""
	for _, v := range c.Call.Args {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			s = constant.StringVal(k.Value)
		}
	}
	return s
}

// c17Assert tells why a conversion may fail.
func c17Assert(r *repo, reached map[*ssa.Function]*ssa.Function, in *ssa.TypeAssert) string {
	root, path := place(in.X)
	if len(path) == 0 {
		return "its value is not the payload of a tagged value"
	}
	payload := path[len(path)-1]
	tags, tag := tagsAt(in.Block(), root, path[:len(path)-1], nil)
	if len(tags) == 0 {
		return "the tag of the value has not been tested"
	}
	var bad []string
	for _, f := range r.funcs {
		if _, ok := reached[f]; !ok {
			continue
		}
		type pair struct {
			tags     []ssa.Value
			payloads []ssa.Value
		}
		at := map[ssa.Value]*pair{}
		for _, b := range f.Blocks {
			for _, s := range b.Instrs {
				st, ok := s.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				if fv != tag && fv != payload {
					continue
				}
				o, _ := place(fa.X)
				if at[o] == nil {
					at[o] = &pair{}
				}
				if fv == tag {
					at[o].tags = append(at[o].tags, st.Val)
				} else {
					at[o].payloads = append(at[o].payloads, st.Val)
				}
			}
		}
		for _, p := range at {
			sets := false
			for _, v := range p.tags {
				k, ok := v.(*ssa.Const)
				if !ok {
					// copied from another tagged value together with its payload
					_, vp := place(v)
					sets = sets || len(vp) == 0 || vp[len(vp)-1] != tag
					continue
				}
				sets = sets || tags[constant.StringVal(k.Value)]
			}
			if !sets && len(p.tags) > 0 {
				continue
			}
			good := len(p.payloads) > 0
			for _, v := range p.payloads {
				m, ok := v.(*ssa.MakeInterface)
				if !ok {
					_, vp := place(v)
					good = good && len(vp) > 0 && vp[len(vp)-1] == payload
					continue
				}
				if len(p.tags) == 0 {
					good = false
					continue
				}
				good = good && types.AssignableTo(m.X.Type(), in.AssertedType)
			}
			if !good {
				bad = append(bad, fname(f))
			}
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		var names []string
		for k := range tags {
			names = append(names, fmt.Sprintf("%q", k))
		}
		sort.Strings(names)
		return fmt.Sprintf("%s sets the tag (%s) without a payload of that type", bad[0], strings.Join(names, ", "))
	}
	return ""
}
