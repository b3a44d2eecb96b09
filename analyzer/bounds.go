package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The bounds analysis. An obligation is a linear form over the integers of a function and the lengths of
// its texts and lists that must not be negative at a point. It is derived from the conditions that hold
// on every way to the point (branches that dominate it), from the definitions of the values (lengths of
// parts, sums, loop counters by induction, results of calls by their summaries) and, for what depends on
// the parameters alone, from every call of the function. Fields read twice are the same value only while
// nothing in between can store to them.

// atom is one unknown: an integer value, or the length of a text or list, read through the fields path
// from root.
type atom struct {
	root  ssa.Value
	path  []*types.Var
	isLen bool
	key   string
}

// lin is the sum of its atoms times their factors plus c.
type lin struct {
	c int64
	m map[string]int64
}

func (l lin) clone() lin {
	out := lin{l.c, map[string]int64{}}
	for k, v := range l.m {
		out.m[k] = v
	}
	return out
}

func (l lin) add(o lin, k int64) lin {
	out := l.clone()
	out.c += k * o.c
	for a, f := range o.m {
		out.m[a] += k * f
		if out.m[a] == 0 {
			delete(out.m, a)
		}
	}
	return out
}

func (l lin) plus(c int64) lin {
	out := l.clone()
	out.c += c
	return out
}

func (l lin) keys() []string {
	var out []string
	for k := range l.m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (l lin) String() string {
	var sb strings.Builder
	for _, k := range l.keys() {
		fmt.Fprintf(&sb, "%+d*%s ", l.m[k], k)
	}
	fmt.Fprintf(&sb, "%+d", l.c)
	return sb.String()
}

func konst(c int64) lin { return lin{c, map[string]int64{}} }

// point is the place before instruction idx of a block.
type point struct {
	b   *ssa.BasicBlock
	idx int
}

type boundFact struct {
	f  lin
	ne bool // f is not zero, rather than not negative
	// where it was established
	from, to *ssa.BasicBlock
	always   bool // a hypothesis: holds at the points asked about
}

// boundPost says that post is not negative for a result and the arguments whenever pre is not.
type boundPost struct {
	pre, post func(ssa.Value, []ssa.Value) lin
}

type truthKey struct {
	f      *ssa.Function
	result bool
}

type bounds struct {
	r        *repo
	reached  map[*ssa.Function]*ssa.Function
	atoms    map[string]*atom
	mods     map[*ssa.Function]map[*types.Var]bool
	modsAll  map[*ssa.Function]bool
	budget   int
	postMemo map[*ssa.Function]map[int][]boundPost
	trueMemo map[truthKey][]lin
	asValue  map[*ssa.Function]bool
	factMemo map[*ssa.BasicBlock][]boundFact
	active   map[string]bool
	entry    map[*ssa.Function][]lin
	full     map[string]bool
	ids      map[ssa.Value]int
}

func newBounds(r *repo, reached map[*ssa.Function]*ssa.Function) *bounds {
	e := &bounds{r: r, reached: reached, atoms: map[string]*atom{},
		postMemo: map[*ssa.Function]map[int][]boundPost{},
		trueMemo: map[truthKey][]lin{},
		asValue:  map[*ssa.Function]bool{}, factMemo: map[*ssa.BasicBlock][]boundFact{},
		active: map[string]bool{}, entry: map[*ssa.Function][]lin{}, full: map[string]bool{}, ids: map[ssa.Value]int{}}
	e.findMods()
	for f := range reached {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				c, call := in.(ssa.CallInstruction)
				for _, op := range ops {
					g, ok := (*op).(*ssa.Function)
					if ok && !(call && c.Common().Value == g && op == &c.Common().Value) {
						e.asValue[g] = true
					}
				}
			}
		}
	}
	return e
}

// findMods computes the fields each function may store to, its callees included.
func (e *bounds) findMods() {
	e.mods = map[*ssa.Function]map[*types.Var]bool{}
	var all []*ssa.Function
	for f := range e.reached {
		if !e.r.inModule(f) {
			continue
		}
		all = append(all, f)
		m := map[*types.Var]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, v := range storedFields(in) {
					m[v] = true
				}
			}
		}
		e.mods[f] = m
	}
	for changed := true; changed; {
		changed = false
		for _, f := range all {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, g := range e.r.callees(c) {
						for v := range e.mods[g] {
							if !e.mods[f][v] {
								e.mods[f][v] = true
								changed = true
							}
						}
					}
				}
			}
		}
	}
}

// storedFields are the fields an instruction itself stores to.
func storedFields(in ssa.Instruction) []*types.Var {
	st, ok := in.(*ssa.Store)
	if !ok {
		return nil
	}
	if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
		return []*types.Var{fieldVar(fa.X.Type(), fa.Field)}
	}
	var out []*types.Var
	if s, ok := st.Val.Type().Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, s.Field(i))
		}
	}
	return out
}

func (e *bounds) mkAtom(root ssa.Value, path []*types.Var, isLen bool) lin {
	id, ok := e.ids[root]
	if !ok {
		id = len(e.ids)
		e.ids[root] = id
	}
	k := fmt.Sprintf("%s#%d", root.Name(), id)
	for _, f := range path {
		k += "." + f.Name()
	}
	if isLen {
		k = "len(" + k + ")"
	}
	if e.atoms[k] == nil {
		e.atoms[k] = &atom{root, path, isLen, k}
	}
	return lin{0, map[string]int64{k: 1}}
}

// place reduces a value to the fields read from a root.
func place(v ssa.Value) (ssa.Value, []*types.Var) {
	switch v := v.(type) {
	case *ssa.ChangeType:
		return place(v.X)
	case *ssa.Convert:
		if isTextual(v.Type()) && isTextual(v.X.Type()) && !isRunes(v.Type()) && !isRunes(v.X.Type()) {
			return place(v.X)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				root, path := place(fa.X)
				return root, append(append([]*types.Var{}, path...), fieldVar(fa.X.Type(), fa.Field))
			}
			if _, ok := v.Type().Underlying().(*types.Struct); ok {
				return place(v.X)
			}
			if al, ok := v.X.(*ssa.Alloc); ok {
				if st := onlyStore(al); st != nil && st.Block().Dominates(v.Block()) {
					return place(st.Val)
				}
			}
			if fv, ok := v.X.(*ssa.FreeVar); ok && onlyRead(fv) {
				return fv, nil
			}
		}
	case *ssa.FieldAddr:
		root, path := place(v.X)
		return root, append(append([]*types.Var{}, path...), fieldVar(v.X.Type(), v.Field))
	case *ssa.Field:
		root, path := place(v.X)
		st := v.X.Type().Underlying().(*types.Struct)
		return root, append(append([]*types.Var{}, path...), st.Field(v.Field))
	}
	return v, nil
}

// onlyStore is the store of a captured variable that is set once.
func onlyStore(al *ssa.Alloc) *ssa.Store {
	var out *ssa.Store
	for _, ref := range *al.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr != al || out != nil {
				return nil
			}
			out = ref
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range ref.Bindings {
				if b == al && !onlyRead(ref.Fn.(*ssa.Function).FreeVars[i]) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	return out
}

// onlyRead tells whether a captured variable is never set or passed on.
func onlyRead(fv *ssa.FreeVar) bool {
	for _, ref := range *fv.Referrers() {
		switch ref := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range ref.Bindings {
				if b == fv && !onlyRead(ref.Fn.(*ssa.Function).FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func isRunes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isTextual(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := t.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Byte || b.Kind() == types.Int32)
	}
	return false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func builtinCall(v ssa.Value, name string) *ssa.Call {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == name {
		return c
	}
	return nil
}

// num is the linear form of an integer value.
func (e *bounds) num(v ssa.Value) lin {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(v.Value); ok {
				return konst(n)
			}
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD:
			return e.num(v.X).add(e.num(v.Y), 1)
		case token.SUB:
			return e.num(v.X).add(e.num(v.Y), -1)
		}
	case *ssa.Convert:
		if isInt(v.X.Type()) {
			return e.num(v.X)
		}
	case *ssa.ChangeType:
		return e.num(v.X)
	case *ssa.Call:
		if c := builtinCall(v, "len"); c != nil {
			return e.length(c.Call.Args[0])
		}
	}
	root, path := place(v)
	return e.mkAtom(root, path, false)
}

// length is the linear form of the length of a text or list.
func (e *bounds) length(v ssa.Value) lin {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return konst(0)
		}
		if v.Value.Kind() == constant.String {
			return konst(int64(len(constant.StringVal(v.Value))))
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			return e.length(v.X).add(e.length(v.Y), 1)
		}
	case *ssa.ChangeType:
		return e.length(v.X)
	case *ssa.Slice:
		if arr, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			n := arr.Elem().Underlying().(*types.Array).Len()
			out := konst(n)
			if v.High != nil {
				out = e.num(v.High)
			}
			if v.Low != nil {
				out = out.add(e.num(v.Low), -1)
			}
			return out
		}
		var out lin
		if v.High != nil {
			out = e.num(v.High)
		} else {
			out = e.length(v.X)
		}
		if v.Low != nil {
			out = out.add(e.num(v.Low), -1)
		}
		return out
	case *ssa.MakeSlice:
		return e.num(v.Len)
	case *ssa.Call:
		if c := builtinCall(v, "append"); c != nil {
			return e.length(c.Call.Args[0]).add(e.length(c.Call.Args[1]), 1)
		}
		// a function that only puts texts together
		if g := v.Call.StaticCallee(); g != nil && len(g.Blocks) == 1 && e.r.inModule(g) && isTextual(v.Type()) {
			if ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return); ok {
				if b, ok := ret.Results[0].(*ssa.BinOp); ok && b.Op == token.ADD {
					l := e.length(b)
					simple := true
					for k := range l.m {
						_, ok := e.atoms[k].root.(*ssa.Parameter)
						simple = simple && ok
					}
					if simple {
						return e.over(l, g, v.Call.Args)
					}
				}
			}
		}
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return e.mkAtom(g, nil, true)
		}
	}
	root, path := place(v)
	return e.mkAtom(root, path, true)
}

// killed tells whether a field the form reads may be stored to between the edge from-to and the point.
func (e *bounds) killed(l lin, from, to *ssa.BasicBlock, p point) bool {
	fields := map[*types.Var]bool{}
	var roots []ssa.Value
	for k := range l.m {
		a := e.atoms[k]
		for _, f := range a.path {
			fields[f] = true
		}
		if _, ok := a.root.(*ssa.Global); ok {
			roots = append(roots, a.root)
		}
	}
	if len(fields) == 0 && len(roots) == 0 {
		return false
	}
	kills := func(in ssa.Instruction) bool {
		for _, v := range storedFields(in) {
			if fields[v] {
				return true
			}
		}
		if st, ok := in.(*ssa.Store); ok {
			for _, g := range roots {
				if st.Addr == g {
					return true
				}
			}
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			for _, g := range e.r.callees(c) {
				m := e.mods[g]
				for v := range fields {
					if m[v] {
						return true
					}
				}
			}
		}
		return false
	}
	forward := map[*ssa.BasicBlock]bool{}
	var fw func(b *ssa.BasicBlock)
	fw = func(b *ssa.BasicBlock) {
		if forward[b] || b == from {
			return
		}
		forward[b] = true
		for _, s := range b.Succs {
			fw(s)
		}
	}
	fw(to)
	backward := map[*ssa.BasicBlock]bool{}
	var bw func(b *ssa.BasicBlock)
	bw = func(b *ssa.BasicBlock) {
		for _, q := range b.Preds {
			if forward[q] && !backward[q] {
				backward[q] = true
				bw(q)
			}
		}
	}
	bw(p.b)
	for b := range backward {
		for _, in := range b.Instrs {
			if kills(in) {
				return true
			}
		}
	}
	for i := 0; i < p.idx && i < len(p.b.Instrs); i++ {
		if p.b == from {
			break
		}
		if kills(p.b.Instrs[i]) {
			return true
		}
	}
	return false
}

// facts are the conditions that hold on every way to the block.
func (e *bounds) facts(b *ssa.BasicBlock) []boundFact {
	if f, ok := e.factMemo[b]; ok {
		return f
	}
	e.factMemo[b] = nil
	var out []boundFact
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		for _, f := range e.implied(iff.Cond, p.Succs[0] == d, 0) {
			f.from, f.to = p, d
			out = append(out, f)
		}
	}
	e.factMemo[b] = out
	return out
}

func (e *bounds) edgeFacts(p, s *ssa.BasicBlock) []boundFact {
	var out []boundFact
	if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		for _, f := range e.implied(iff.Cond, p.Succs[0] == s, 0) {
			f.from, f.to = p, s
			f.always = true
			out = append(out, f)
		}
	}
	return out
}

// implied are the facts that a condition with the given outcome establishes.
func (e *bounds) implied(cond ssa.Value, truth bool, depth int) []boundFact {
	if depth > 6 {
		return nil
	}
	ge := func(a, b lin, c int64) boundFact { return boundFact{f: a.add(b, -1).plus(c)} } // a-b+c >= 0
	switch v := cond.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return e.implied(v.X, !truth, depth+1)
		}
	case *ssa.BinOp:
		op := v.Op
		if !truth {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ,
				token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		if isInt(v.X.Type()) {
			x, y := e.num(v.X), e.num(v.Y)
			switch op {
			case token.LSS:
				return []boundFact{ge(y, x, -1)}
			case token.LEQ:
				return []boundFact{ge(y, x, 0)}
			case token.GTR:
				return []boundFact{ge(x, y, -1)}
			case token.GEQ:
				return []boundFact{ge(x, y, 0)}
			case token.EQL:
				return []boundFact{ge(x, y, 0), ge(y, x, 0)}
			case token.NEQ:
				return []boundFact{{f: x.add(y, -1), ne: true}}
			}
		}
		if isTextual(v.X.Type()) {
			x, y := e.length(v.X), e.length(v.Y)
			switch op {
			case token.EQL:
				return []boundFact{ge(x, y, 0), ge(y, x, 0)}
			case token.NEQ:
				if len(y.m) == 0 && y.c == 0 {
					return []boundFact{ge(x, y, -1)}
				}
				if len(x.m) == 0 && x.c == 0 {
					return []boundFact{ge(y, x, -1)}
				}
			}
		}
	case *ssa.Phi:
		// a conjunction or disjunction kept in a variable
		var only = -1
		for i, ed := range v.Edges {
			if c, ok := ed.(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != truth {
				continue
			}
			if only >= 0 {
				return nil
			}
			only = i
		}
		if only < 0 {
			return nil
		}
		p := v.Block().Preds[only]
		out := e.implied(v.Edges[only], truth, depth+1)
		for d := p; d != nil && d != v.Block().Idom(); d = d.Idom() {
			if len(d.Preds) != 1 {
				continue
			}
			q := d.Preds[0]
			if iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok && q.Succs[0] != q.Succs[1] {
				out = append(out, e.implied(iff.Cond, q.Succs[0] == d, depth+1)...)
			}
		}
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			out = append(out, e.implied(iff.Cond, p.Succs[0] == v.Block(), depth+1)...)
		}
		return out
	case *ssa.Extract:
		// what is left of a text that starts or ends with another
		if c, ok := v.Tuple.(*ssa.Call); ok && truth && v.Index == 1 && c.Call.StaticCallee() != nil {
			switch c.Call.StaticCallee().String() {
			case "strings.CutPrefix", "strings.CutSuffix":
				whole, part := e.length(c.Call.Args[0]), e.length(c.Call.Args[1])
				out := []boundFact{ge(whole, part, 0)}
				for _, ref := range *c.Referrers() {
					if x, ok := ref.(*ssa.Extract); ok && x.Index == 0 {
						both := e.length(x).add(part, 1)
						out = append(out, ge(whole, both, 0), ge(both, whole, 0))
					}
				}
				return out
			}
		}
		// an entry found in a map whose entries are never empty lists
		if lk, ok := v.Tuple.(*ssa.Lookup); ok && truth && v.Index == 1 && e.fullMap(lk.X.Type()) {
			for _, ref := range *lk.Referrers() {
				if x, ok := ref.(*ssa.Extract); ok && x.Index == 0 {
					return []boundFact{ge(e.length(x), konst(1), 0)}
				}
			}
		}
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil {
			return nil
		}
		switch g.String() {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			if !truth {
				return nil
			}
			return []boundFact{ge(e.length(v.Call.Args[0]), e.length(v.Call.Args[1]), 0)}
		}
		var out []boundFact
		for _, f := range e.truths(g, truth) {
			out = append(out, boundFact{f: e.over(f, g, v.Call.Args)})
		}
		return out
	}
	return nil
}

// fresh sets aside what is being proved while a summary is computed; the result restores it.
func (e *bounds) fresh() func() {
	budget, active, entry := e.budget, e.active, e.entry
	e.budget, e.active, e.entry = 20000, map[string]bool{}, map[*ssa.Function][]lin{}
	return func() { e.budget, e.active, e.entry = budget, active, entry }
}

// truths are the forms over the parameters that are not negative when a function returns the truth value.
func (e *bounds) truths(g *ssa.Function, result bool) []lin {
	key := truthKey{g, result}
	if t, ok := e.trueMemo[key]; ok {
		return t
	}
	e.trueMemo[key] = nil
	defer e.fresh()()
	if len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 || !e.r.inModule(g) {
		return nil
	}
	if b, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return nil
	}
	var out []lin
	tried := map[string]bool{}
	try := func(goal lin) {
		if tried[goal.String()] || len(goal.m) == 0 {
			return
		}
		tried[goal.String()] = true
		for k := range goal.m {
			if _, ok := e.atoms[k].root.(*ssa.Parameter); !ok {
				return
			}
		}
		n := 0
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if !e.trueImplies(ret.Results[0], result, goal, point{b, len(b.Instrs) - 1}, map[ssa.Value]bool{}) {
				return
			}
			n++
		}
		if n > 0 {
			out = append(out, goal)
		}
	}
	// what some condition of the function establishes, or two of them together, if it holds whenever
	// that is the result
	var forms []lin
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if t, ok := v.Type().Underlying().(*types.Basic); !ok || t.Kind() != types.Bool {
				continue
			}
			for _, truth := range []bool{true, false} {
				for _, f := range e.implied(v, truth, 0) {
					if !f.ne {
						try(f.f)
						forms = append(forms, f.f)
					}
				}
			}
		}
	}
	for i := 0; i < len(forms) && len(forms) <= 12; i++ {
		for _, f := range forms[:i] {
			for k, c := range f.m {
				if forms[i].m[k] == -c {
					try(forms[i].add(f, 1))
					break
				}
			}
		}
	}
	e.trueMemo[key] = out
	return out
}

// fullMap tells whether every list stored in a map of the type has an element.
func (e *bounds) fullMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isList(m.Elem()) {
		return false
	}
	key := types.TypeString(m, nil)
	if full, ok := e.full[key]; ok {
		return full
	}
	e.full[key] = false
	defer e.fresh()()
	for f := range e.reached {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				up, ok := in.(*ssa.MapUpdate)
				if !ok || !types.Identical(up.Map.Type().Underlying(), m) {
					continue
				}
				if !e.prove(e.length(up.Value).plus(-1), point{b, i}, nil, 6) {
					return false
				}
			}
		}
	}
	e.full[key] = true
	return true
}

// over restates a form over the parameters of a function over the arguments of a call.
func (e *bounds) over(l lin, g *ssa.Function, args []ssa.Value) lin {
	out := konst(l.c)
	for k, co := range l.m {
		a := e.atoms[k]
		term := lin{0, map[string]int64{k: 1}}
		for i, p := range g.Params {
			if p != a.root {
				continue
			}
			switch {
			case len(a.path) > 0:
				root, path := place(args[i])
				term = e.mkAtom(root, append(append([]*types.Var{}, path...), a.path...), a.isLen)
			case a.isLen:
				term = e.length(args[i])
			default:
				term = e.num(args[i])
			}
		}
		out = out.add(term, co)
	}
	return out
}

func isList(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// trueImplies tells whether the goal holds whenever the value is the truth value.
func (e *bounds) trueImplies(v ssa.Value, result bool, goal lin, p point, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != result {
		return true
	}
	if phi, ok := v.(*ssa.Phi); ok {
		for i, ed := range phi.Edges {
			q := phi.Block().Preds[i]
			if !e.trueImplies(ed, result, goal, point{q, len(q.Instrs)}, seen) {
				return false
			}
		}
		return true
	}
	var hyps []boundFact
	for _, f := range e.implied(v, result, 0) {
		f.always = true
		hyps = append(hyps, f)
	}
	return e.prove(goal, p, hyps, 5)
}

// results are the forms over result k and the arguments of a call that are not negative.
func (e *bounds) results(g *ssa.Function, k int) []boundPost {
	if m, ok := e.postMemo[g]; ok {
		if f, ok := m[k]; ok {
			return f
		}
	} else {
		e.postMemo[g] = map[int][]boundPost{}
	}
	e.postMemo[g][k] = nil
	defer e.fresh()()
	if len(g.Blocks) == 0 || !e.r.inModule(g) {
		return nil
	}
	rt := g.Signature.Results().At(k).Type()
	var out []boundPost
	var params []ssa.Value
	for _, p := range g.Params {
		params = append(params, p)
	}
	type form = func(ssa.Value, []ssa.Value) lin
	try := func(pre, post form) bool {
		n := 0
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if k >= len(ret.Results) {
				return false
			}
			if !e.resultHolds(pre, post, ret.Results[k], params, point{b, len(b.Instrs) - 1}, nil) {
				return false
			}
			n++
		}
		if n > 0 {
			out = append(out, boundPost{pre, post})
		}
		return n > 0
	}
	sized := func(t types.Type) bool { return isTextual(t) || isList(t) }
	switch {
	case isInt(rt):
		self := func(v ssa.Value, a []ssa.Value) lin { return e.num(v) }
		if !try(nil, self) {
			try(nil, func(v ssa.Value, a []ssa.Value) lin { return e.num(v).plus(1) })
		}
		for i, p := range g.Params {
			if isInt(p.Type()) {
				try(self, func(v ssa.Value, a []ssa.Value) lin { return e.num(v).add(e.num(a[i]), -1) })
			}
			if !sized(p.Type()) {
				continue
			}
			if !try(nil, func(v ssa.Value, a []ssa.Value) lin { return e.length(a[i]).add(e.num(v), -1).plus(-1) }) {
				try(nil, func(v ssa.Value, a []ssa.Value) lin { return e.length(a[i]).add(e.num(v), -1) })
			}
			for j, q := range g.Params {
				if i == j || !sized(q.Type()) {
					continue
				}
				try(func(v ssa.Value, a []ssa.Value) lin { return e.length(a[j]).plus(-1) },
					func(v ssa.Value, a []ssa.Value) lin { return e.length(a[i]).add(e.num(v), -1).plus(-1) })
				try(self, func(v ssa.Value, a []ssa.Value) lin {
					return e.length(a[i]).add(e.length(a[j]), -1).add(e.num(v), -1)
				})
			}
		}
	case sized(rt):
		try(nil, func(v ssa.Value, a []ssa.Value) lin { return e.length(v).plus(-1) })
		for i, p := range g.Params {
			if sized(p.Type()) {
				try(nil, func(v ssa.Value, a []ssa.Value) lin { return e.length(v).add(e.length(a[i]), -1) })
				try(nil, func(v ssa.Value, a []ssa.Value) lin { return e.length(a[i]).add(e.length(v), -1) })
			}
		}
	}
	e.postMemo[g][k] = out
	return out
}

// resultHolds proves a summary for one returned value, by the ways the value can come about.
func (e *bounds) resultHolds(pre, post func(ssa.Value, []ssa.Value) lin, v ssa.Value, params []ssa.Value, p point, edge []boundFact) bool {
	hyps := edge
	if pre != nil {
		l := pre(v, params)
		if len(l.m) == 0 && l.c < 0 {
			return true
		}
		hyps = append([]boundFact{{f: l, always: true}}, edge...)
	}
	if e.prove(post(v, params), p, hyps, 6) {
		return true
	}
	if pre == nil {
		return false
	}
	// the assumption contradicts what is known
	if e.prove(konst(-1).add(hyps[0].f, -1), p, edge, 4) {
		return true
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for i, ed := range phi.Edges {
		q := phi.Block().Preds[i]
		if phi.Block().Dominates(q) || !e.resultHolds(pre, post, ed, params, point{q, len(q.Instrs)}, e.edgeFacts(q, phi.Block())) {
			return false
		}
	}
	return true
}

// defined are the facts that follow from how the value of an atom is computed.
func (e *bounds) defined(a *atom, p point, hyps []boundFact, depth int) []boundFact {
	var out []boundFact
	add := func(l lin) { out = append(out, boundFact{f: l, always: true}) }
	self := lin{0, map[string]int64{a.key: 1}}
	if a.isLen {
		add(self)
	}
	if len(a.path) > 0 {
		return out
	}
	root, k := a.root, 0
	if x, ok := root.(*ssa.Extract); ok {
		root, k = x.Tuple, x.Index
	}
	if b, ok := root.(*ssa.BinOp); ok && !a.isLen {
		if n := e.num(b.Y); len(n.m) == 0 && n.c > 0 {
			switch b.Op {
			case token.REM, token.QUO:
				if e.prove(e.num(b.X), p, hyps, depth-2) {
					add(self)
					if b.Op == token.REM {
						add(konst(n.c-1).add(self, -1))
					} else {
						add(e.num(b.X).add(self, -1))
						if n.c > 1 && e.prove(e.num(b.X).plus(-1), p, hyps, depth-2) {
							add(e.num(b.X).plus(-1).add(self, -1))
						}
					}
				}
			}
		}
		return out
	}
	c, ok := root.(*ssa.Call)
	if !ok {
		return out
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return out
	}
	args := c.Call.Args
	switch g.String() {
	case "strings.Index", "strings.LastIndex":
		s, sub := e.length(args[0]), e.length(args[1])
		add(self.plus(1))
		if e.prove(sub.plus(-1), p, hyps, depth-3) {
			add(s.plus(-1).add(self, -1))
		} else {
			add(s.add(self, -1))
		}
		if depth > 2 && e.prove(self, p, hyps, depth-3) {
			add(s.add(sub, -1).add(self, -1))
		}
	case "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexByte", "strings.LastIndexAny":
		add(self.plus(1))
		add(e.length(args[0]).plus(-1).add(self, -1))
	case "strings.Count", "unicode/utf8.RuneCountInString":
		add(self)
	case "strings.Split":
		if sep := e.length(args[1]); len(sep.m) == 0 && sep.c > 0 {
			add(self.plus(-1))
		}
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
		add(e.length(args[0]).add(self, -1))
	default:
		for _, f := range e.results(g, k) {
			if f.pre != nil {
				if pre := f.pre(a.root, args); depth < 4 || !e.prove(pre, p, hyps, depth-3) {
					continue
				}
			}
			add(f.post(a.root, args))
		}
	}
	return out
}

func (e *bounds) holds(goal lin, p point) bool {
	for _, depth := range []int{8, 12} {
		e.budget = 60000
		if e.prove(goal, p, nil, depth) {
			return true
		}
	}
	return false
}

// prove tells whether the form is certainly not negative at the point.
func (e *bounds) prove(goal lin, p point, hyps []boundFact, depth int) bool {
	if len(goal.m) == 0 {
		return goal.c >= 0
	}
	if depth <= 0 || e.budget <= 0 {
		return false
	}
	e.budget--
	key := fmt.Sprint(goal, p.b.Parent().Name(), p.b.Index, p.idx, len(hyps))
	if e.active[key] {
		return false
	}
	e.active[key] = true
	defer delete(e.active, key)

	var facts []boundFact
	facts = append(facts, hyps...)
	facts = append(facts, e.facts(p.b)...)
	for _, l := range e.entry[p.b.Parent()] {
		facts = append(facts, boundFact{f: l, to: p.b.Parent().Blocks[0]})
	}
	for _, k := range goal.keys() {
		facts = append(facts, e.defined(e.atoms[k], p, hyps, depth)...)
	}
	for _, f := range facts {
		ways := []lin{f.f}
		if f.ne {
			ways = nil
			shares := false
			for k := range f.f.m {
				shares = shares || goal.m[k] != 0
			}
			if !shares || depth < 3 {
				continue
			}
			if !f.always && e.killed(f.f, f.from, f.to, p) {
				continue
			}
			if e.prove(f.f, p, hyps, depth-3) {
				ways = append(ways, f.f.plus(-1))
			} else if neg := konst(0).add(f.f, -1); e.prove(neg, p, hyps, depth-3) {
				ways = append(ways, neg.plus(-1))
			}
		}
		for _, w := range ways {
			used := false
			for k, c := range w.m {
				g := goal.m[k]
				if g == 0 || (g > 0) != (c > 0) || g%c != 0 {
					continue
				}
				if !used && !f.always && e.killed(w, f.from, f.to, p) {
					break
				}
				used = true
				if e.prove(goal.add(w, -(g/c)), p, hyps, depth-1) {
					return true
				}
			}
		}
	}
	for _, k := range goal.keys() {
		a := e.atoms[k]
		c, ok := a.root.(*ssa.Call)
		if !ok || a.isLen || len(a.path) > 0 || builtinCall(c, "min") == nil && builtinCall(c, "max") == nil {
			continue
		}
		// it is one of the arguments; the least or greatest of them goes for any
		any := (goal.m[k] < 0) == (builtinCall(c, "min") != nil)
		proved := !any
		for _, arg := range c.Call.Args {
			with := goal.clone()
			delete(with.m, k)
			if e.prove(with.add(e.num(arg), goal.m[k]), p, hyps, depth-1) == any {
				proved = any
				break
			}
		}
		if proved {
			return true
		}
	}
	for _, k := range goal.keys() {
		a := e.atoms[k]
		if phi, ok := a.root.(*ssa.Phi); ok && len(a.path) == 0 {
			if e.provePhi(goal, a, phi, p, hyps, depth) {
				return true
			}
		}
	}
	return e.proveJoin(goal, p, hyps, depth) || e.proveCallers(goal, p, depth)
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, q := range b.Preds {
		if b.Dominates(q) {
			return true
		}
	}
	return false
}

// proveJoin proves the goal on each of the ways that meet before the point.
func (e *bounds) proveJoin(goal lin, p point, hyps []boundFact, depth int) bool {
	if depth < 3 {
		return false
	}
	b, loops := p.b, false
	for b != nil && (len(b.Preds) < 2 || isLoopHead(b)) {
		loops = loops || len(b.Preds) > 1
		b = b.Idom()
	}
	if b == nil || len(b.Preds) > 6 {
		return false
	}
	before := func(l lin) bool {
		for k := range l.m {
			if in, ok := e.atoms[k].root.(ssa.Instruction); ok {
				if in.Parent() != b.Parent() || in.Block() == b || !in.Block().Dominates(b) {
					return false
				}
			}
		}
		return true
	}
	if !before(goal) || e.killed(goal, nil, b, p) {
		return false
	}
	// what holds between the join and the point holds on each of the ways
	var between []boundFact
	for _, f := range e.facts(p.b) {
		if b.Dominates(f.from) && (!loops || before(f.f)) && !e.killed(f.f, f.from, f.to, p) && !e.killed(f.f, nil, b, p) {
			f.always = true
			between = append(between, f)
		}
	}
	for _, q := range b.Preds {
		h := append(append([]boundFact{}, between...), e.edgeFacts(q, b)...)
		for _, f := range hyps {
			if f.always {
				h = append(h, f)
			}
		}
		at := point{q, len(q.Instrs)}
		if e.prove(goal, at, h, depth-2) {
			continue
		}
		possible := true
		for i, f := range h {
			if !f.ne && e.prove(konst(-1).add(f.f, -1), at, append(append([]boundFact{}, h[:i]...), h[i+1:]...), depth-2) {
				possible = false
				break
			}
		}
		if possible {
			return false
		}
	}
	return true
}

// provePhi proves the goal by the ways its joined value can come about, by induction around a loop.
func (e *bounds) provePhi(goal lin, a *atom, phi *ssa.Phi, p point, hyps []boundFact, depth int) bool {
	b := phi.Block()
	for k := range goal.m {
		o := e.atoms[k]
		if o == a {
			continue
		}
		if in, ok := o.root.(ssa.Instruction); ok {
			if in.Parent() != b.Parent() || in.Block() == b || !in.Block().Dominates(b) {
				if q, ok := o.root.(*ssa.Phi); !ok || q.Block() != b {
					return false
				}
			}
		}
	}
	rest := goal.add(lin{0, map[string]int64{a.key: goal.m[a.key]}}, -1)
	if e.killed(rest, nil, b, p) {
		return false
	}
	for i, ed := range phi.Edges {
		q := b.Preds[i]
		g := konst(goal.c)
		for k, c := range goal.m {
			o := e.atoms[k]
			if oq, ok := o.root.(*ssa.Phi); ok && oq.Block() == b && len(o.path) == 0 {
				if o.isLen {
					g = g.add(e.length(oq.Edges[i]), c)
				} else {
					g = g.add(e.num(oq.Edges[i]), c)
				}
			} else {
				g = g.add(lin{0, map[string]int64{k: 1}}, c)
			}
		}
		var h []boundFact
		h = append(h, e.edgeFacts(q, b)...)
		if b.Dominates(q) {
			h = append(h, boundFact{f: goal, from: nil, to: b})
		} else {
			for _, f := range hyps {
				if f.always {
					h = append(h, f)
				}
			}
		}
		_ = ed
		if !e.prove(g, point{q, len(q.Instrs)}, h, depth-1) {
			return false
		}
	}
	return true
}

// proveCallers proves a goal over the parameters at every call of the function.
func (e *bounds) proveCallers(goal lin, p point, depth int) bool {
	f := p.b.Parent()
	callers, known := e.callersOf(f)
	if !known || !e.r.inModule(f) || depth < 3 {
		return false
	}
	for k := range goal.m {
		a := e.atoms[k]
		if _, ok := a.root.(*ssa.Global); ok {
			continue
		}
		if _, ok := a.root.(*ssa.Parameter); !ok {
			return false
		}
	}
	if e.killed(goal, nil, f.Blocks[0], p) {
		return false
	}
	// by induction over the calls: the goal held for the calls on the way here
	e.entry[f] = append(e.entry[f], goal)
	defer func() { e.entry[f] = e.entry[f][:len(e.entry[f])-1] }()
	n := 0
	for _, c := range callers {
		in := c.(ssa.Instruction)
		if _, ok := e.reached[in.Parent()]; !ok {
			continue
		}
		if _, ok := c.(*ssa.Call); !ok {
			return false
		}
		n++
		g := e.over(goal, f, c.Common().Args)
		b := in.Block()
		at := len(b.Instrs)
		for i, x := range b.Instrs {
			if x == in {
				at = i
			}
		}
		if !e.prove(g, point{b, at}, nil, depth-2) {
			return false
		}
	}
	return n > 0
}

// callersOf are the calls of a function, if all are known. A function literal has to be called only
// where it is made.
func (e *bounds) callersOf(f *ssa.Function) ([]ssa.CallInstruction, bool) {
	if f.Parent() == nil {
		return e.r.callers(f), !e.asValue[f]
	}
	var out []ssa.CallInstruction
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			var made ssa.Value
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				made = mc
			}
			for _, op := range in.Operands(nil) {
				if *op == f && made == nil {
					if c, ok := in.(ssa.CallInstruction); !ok || c.Common().Value != f {
						return nil, false
					}
					out = append(out, in.(ssa.CallInstruction))
				}
			}
			if made == nil {
				continue
			}
			for _, ref := range *made.Referrers() {
				switch ref := ref.(type) {
				case *ssa.DebugRef:
				case ssa.CallInstruction:
					if ref.Common().Value != made {
						return nil, false
					}
					out = append(out, ref)
				default:
					return nil, false
				}
			}
		}
	}
	return out, len(out) > 0
}
