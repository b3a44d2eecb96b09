package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The nil analysis: which pointers may be nil because they are the literal nil, an entry missing from a
// map, the result of a function that may return such a pointer, or a parameter given one.

type nilness struct {
	r       *repo
	reached map[*ssa.Function]*ssa.Function
	results map[string]int // 1 in progress, 2 never nil, 3 may be nil
	params  map[*ssa.Parameter]int
	why     map[ssa.Value]string
	pairing map[[2]ssa.Value]bool
	tests   map[*types.Var]int
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// guarded tells whether v is known not to be nil at the block.
func (e *nilness) guarded(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if ok && p.Succs[0] != p.Succs[1] && e.condNonNil(iff.Cond, p.Succs[0] == d, v, 0) {
			return true
		}
	}
	return false
}

func (e *nilness) condNonNil(cond ssa.Value, truth bool, v ssa.Value, depth int) bool {
	if depth > 5 {
		return false
	}
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return e.condNonNil(c.X, !truth, v, depth+1)
		}
	case *ssa.BinOp:
		op := c.Op
		if !truth {
			op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		for _, xy := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			// no error with the result
			if err, ok := xy[0].(*ssa.Extract); ok && op == token.EQL && types.IsInterface(err.Type()) {
				k, isnil := xy[1].(*ssa.Const)
				x, ok := v.(*ssa.Extract)
				if ok && isnil && k.IsNil() && x.Tuple == err.Tuple {
					if t, ok := x.Tuple.(*ssa.Call); ok && t.Call.StaticCallee() != nil && e.nonNilWithout(t.Call.StaticCallee(), x.Index, err.Index) {
						return true
					}
				}
			}
			if xy[0] != v && !samePlace(xy[0], v) {
				continue
			}
			if k, ok := xy[1].(*ssa.Const); ok && k.IsNil() && op == token.NEQ {
				return true
			}
			// equal to a shared definition
			if u, ok := xy[1].(*ssa.UnOp); ok && op == token.EQL {
				if _, ok := u.X.(*ssa.Global); ok {
					return true
				}
			}
		}
	case *ssa.Extract:
		x, ok := v.(*ssa.Extract)
		if !ok || x.Tuple != c.Tuple || !truth {
			return false
		}
		switch t := c.Tuple.(type) {
		case *ssa.Lookup:
			return true
		case *ssa.Call:
			g := t.Call.StaticCallee()
			return g != nil && e.nonNilWhen(g, x.Index, c.Index)
		}
	case *ssa.Phi:
		if vphi, ok := v.(*ssa.Phi); ok && vphi.Block() == c.Block() && truth &&
			e.pair(v, c, c.Block(), nil) {
			return true
		}
		only := -1
		for i, ed := range c.Edges {
			if k, ok := ed.(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) != truth {
				continue
			}
			if only >= 0 {
				return false
			}
			only = i
		}
		if only < 0 {
			return false
		}
		q := c.Block().Preds[only]
		return e.condNonNil(c.Edges[only], truth, v, depth+1) || e.guarded(v, q)
	}
	return false
}

// nonNilWhen tells whether result k of g is not nil whenever its result flag is true.
func (e *nilness) nonNilWhen(g *ssa.Function, k, flag int) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !e.pair(ret.Results[k], ret.Results[flag], b, nil) {
				return false
			}
		}
	}
	return true
}

// nonNilWithout tells whether result k of g is not nil whenever its result err is nil.
func (e *nilness) nonNilWithout(g *ssa.Function, k, err int) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		made := false
		switch r := ret.Results[err].(type) {
		case *ssa.MakeInterface:
			made = true
		case *ssa.Call:
			if h := r.Call.StaticCallee(); h != nil {
				made = h.String() == "errors.New" || h.String() == "fmt.Errorf"
			}
		}
		if !made && !e.guarded(ret.Results[err], b) && e.mayNil(ret.Results[k], b, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

// pair tells whether a value is not nil whenever a flag is true, at the end of a block or on its edge to
// succ.
func (e *nilness) pair(val, flag ssa.Value, b, succ *ssa.BasicBlock) bool {
	if c, ok := flag.(*ssa.Const); ok && c.Value != nil && !constant.BoolVal(c.Value) {
		return true
	}
	if succ != nil {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] &&
			(e.condNonNil(iff.Cond, b.Succs[0] == succ, val, 0) || b.Succs[1] == succ && iff.Cond == flag) {
			return true
		}
	}
	key := [2]ssa.Value{val, flag}
	if e.pairing[key] {
		return true
	}
	e.pairing[key] = true
	defer delete(e.pairing, key)
	if _, ok := flag.(*ssa.Phi); !ok && e.condNonNil(flag, true, val, 0) {
		return true
	}
	vphi, isv := val.(*ssa.Phi)
	fphi, isf := flag.(*ssa.Phi)
	switch {
	case isv && (!isf || fphi.Block() != vphi.Block() && fphi.Block().Dominates(vphi.Block())):
		for i, ed := range vphi.Edges {
			if !e.pair(ed, flag, vphi.Block().Preds[i], vphi.Block()) {
				return false
			}
		}
		return true
	case isf:
		for i, ed := range fphi.Edges {
			w := val
			if isv && vphi.Block() == fphi.Block() {
				w = vphi.Edges[i]
			}
			if !e.pair(w, ed, fphi.Block().Preds[i], fphi.Block()) {
				return false
			}
		}
		return true
	}
	return !e.mayNil(val, b, map[ssa.Value]bool{})
}

func (e *nilness) mayNil(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] || e.guarded(v, b) {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.Lookup:
		return !e.ownKey(v) && !e.knownEntry(v)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Lookup:
			return !e.ownKey(t)
		case *ssa.Call:
			if g := t.Call.StaticCallee(); g != nil {
				return e.resultNil(g, v.Index)
			}
		}
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil {
			return e.resultNil(g, 0) && !e.taggedResult(v, g, b)
		}
	case *ssa.Phi:
		for i, ed := range v.Edges {
			q := v.Block().Preds[i]
			// the edge itself may be a test of the value
			if iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok && q.Succs[0] != q.Succs[1] &&
				e.condNonNil(iff.Cond, q.Succs[0] == v.Block(), ed, 0) {
				continue
			}
			if e.mayNil(ed, q, seen) {
				return true
			}
		}
	case *ssa.Parameter:
		return e.paramNil(v)
	case *ssa.ChangeType:
		return e.mayNil(v.X, b, seen)
	case *ssa.UnOp, *ssa.Field:
		root, path := place(v)
		if len(path) > 0 && isPointer(v.Type()) && e.oftenTested(path[len(path)-1]) && !e.flagged(root, path, b) {
			e.why[v] = "other code tests " + path[len(path)-1].Name() + " against nil"
			return true
		}
	}
	return false
}

// oftenTested tells whether a field is tested against nil at several places, so it may be nil.
func (e *nilness) oftenTested(f *types.Var) bool {
	if e.tests == nil {
		e.tests = map[*types.Var]int{}
		for _, g := range e.r.funcs {
			if _, ok := e.reached[g]; !ok {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.BinOp)
					if !ok || c.Op != token.EQL && c.Op != token.NEQ || !isPointer(c.X.Type()) {
						continue
					}
					for _, xy := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
						if k, ok := xy[1].(*ssa.Const); ok && k.Value == nil {
							if _, p := place(xy[0]); len(p) > 0 {
								e.tests[p[len(p)-1]]++
							}
						}
					}
				}
			}
		}
	}
	return e.tests[f] >= 3
}

// flagged tells whether a flag of the struct that a field belongs to is known to be set: the flag says
// that the field is.
func (e *nilness) flagged(root ssa.Value, path []*types.Var, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		cond, truth := iff.Cond, p.Succs[0] == d
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, truth = u.X, !truth
		}
		croot, cpath := place(cond)
		if !truth || croot != root || len(cpath) != len(path) {
			continue
		}
		same := true
		for i := range path[:len(path)-1] {
			same = same && path[i] == cpath[i]
		}
		if same {
			return true
		}
	}
	return false
}

// ownKey tells whether a map is read with one of its own keys.
func (e *nilness) ownKey(lk *ssa.Lookup) bool {
	return e.fromKeys(lk.Index, func(m ssa.Value) bool { return samePlace(m, lk.X) }, nil, map[ssa.Value]bool{})
}

// knownEntry tells whether the entry was found or set before it is read.
func (e *nilness) knownEntry(lk *ssa.Lookup) bool {
	same := func(m, k ssa.Value) bool {
		return samePlace(m, lk.X) && (samePlace(k, lk.Index) || sameConst(k, lk.Index))
	}
	for d := lk.Block(); d != nil; d = d.Idom() {
		for _, in := range d.Instrs {
			if in == ssa.Instruction(lk) {
				break
			}
			if mu, ok := in.(*ssa.MapUpdate); ok && same(mu.Map, mu.Key) && !e.mayNil(mu.Value, d, map[ssa.Value]bool{}) {
				return true
			}
		}
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		cond, truth := iff.Cond, p.Succs[0] == d
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, truth = u.X, !truth
		}
		if !truth {
			continue
		}
		if found := foundFlag(cond); found != nil && same(found.X, found.Index) {
			return true
		}
		// a function that tells whether there is an entry
		c, ok := cond.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil {
			continue
		}
		g := c.Call.StaticCallee()
		all, n := true, 0
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			n++
			found := foundFlag(ret.Results[0])
			if found == nil {
				all = false
				break
			}
			arg := func(v ssa.Value) ssa.Value {
				for i, q := range g.Params {
					if q == v {
						return c.Call.Args[i]
					}
				}
				return v
			}
			all = all && same(arg(found.X), arg(found.Index))
		}
		if all && n > 0 {
			return true
		}
	}
	return false
}

// foundFlag is the lookup whose found-flag a value is.
func foundFlag(v ssa.Value) *ssa.Lookup {
	x, ok := v.(*ssa.Extract)
	if !ok || x.Index != 1 {
		return nil
	}
	lk, _ := x.Tuple.(*ssa.Lookup)
	return lk
}

// fromKeys tells whether a text is a key of one of the maps that is accepts, or an element of list.
func (e *nilness) fromKeys(v ssa.Value, is func(ssa.Value) bool, list ssa.Value, seen map[ssa.Value]bool) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok && v.Op == token.MUL {
			return e.listOfKeys(ia.X, is, list, seen)
		}
	case *ssa.Extract:
		if nx, ok := v.Tuple.(*ssa.Next); ok && v.Index == 1 {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return is(rg.X)
			}
		}
	}
	return false
}

// listOfKeys tells whether all elements of a list are such texts.
func (e *nilness) listOfKeys(v ssa.Value, is func(ssa.Value) bool, list ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v == list {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.MakeSlice:
		n, ok := v.Len.(*ssa.Const)
		return ok && n.Int64() == 0
	case *ssa.Phi:
		for _, ed := range v.Edges {
			if !e.listOfKeys(ed, is, list, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok {
			return e.listOfKeys(v.X, is, list, seen)
		}
		for _, ref := range *al.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && !e.fromKeys(st.Val, is, list, seen) {
					return false
				}
			}
		}
		return true
	case *ssa.Call:
		if c := builtinCall(v, "append"); c != nil {
			return e.listOfKeys(c.Call.Args[0], is, list, seen) && e.listOfKeys(c.Call.Args[1], is, list, seen)
		}
		g := v.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 {
			return false
		}
		for i, p := range g.Params {
			arg := v.Call.Args[i]
			ok := false
			switch p.Type().Underlying().(type) {
			case *types.Map:
				ok = is(arg) && e.returnsKeys(g, func(m ssa.Value) bool { return m == p }, nil)
			case *types.Slice:
				ok = e.returnsKeys(g, func(ssa.Value) bool { return false }, p) && e.listOfKeys(arg, is, list, seen)
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func (e *nilness) returnsKeys(g *ssa.Function, is func(ssa.Value) bool, list ssa.Value) bool {
	n := 0
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) != 1 || !e.listOfKeys(ret.Results[0], is, list, map[ssa.Value]bool{}) {
				return false
			}
			n++
		}
	}
	return n > 0
}

func samePlace(a, b ssa.Value) bool {
	ra, pa := place(a)
	rb, pb := place(b)
	if ra != rb || len(pa) != len(pb) {
		return false
	}
	for i := range pa {
		if pa[i] != pb[i] {
			return false
		}
	}
	return true
}

// taggedResult tells whether a call that reads the payload of a value is made for one of the tags with
// which the callee has one.
func (e *nilness) taggedResult(c *ssa.Call, g *ssa.Function, b *ssa.BasicBlock) bool {
	for i, p := range g.Params {
		if _, ok := p.Type().Underlying().(*types.Struct); !ok {
			continue
		}
		want := map[string]bool{}
		var wanted *types.Var
		for _, gb := range g.Blocks {
			for _, in := range gb.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok {
					root, path := place(ta.X)
					if !rootedAt(root, p) || len(path) != 1 {
						continue
					}
					tags, field := tagsAt(gb, root, nil, nil)
					wanted = field
					for t := range tags {
						want[t] = true
					}
				}
			}
		}
		if len(want) == 0 {
			continue
		}
		root, path := place(c.Call.Args[i])
		tags, _ := tagsAt(c.Block(), root, path, wanted)
		if len(tags) == 0 {
			tags, _ = tagsAt(b, root, path, wanted)
		}
		if len(tags) == 0 {
			return false
		}
		for t := range tags {
			if !want[t] {
				return false
			}
		}
		return true
	}
	return false
}

// rootedAt tells whether a root is the parameter or the variable that holds it.
func rootedAt(root ssa.Value, p *ssa.Parameter) bool {
	if root == p {
		return true
	}
	al, ok := root.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == al && st.Val == p {
			return true
		}
	}
	return false
}

// tagsAt are the constants one of which a text field of the value at root and path equals at the block.
func tagsAt(b *ssa.BasicBlock, root ssa.Value, path []*types.Var, wanted *types.Var) (map[string]bool, *types.Var) {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 0 {
			continue
		}
		tags := map[string]bool{}
		var field *types.Var
		for _, p := range d.Preds {
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok || p.Succs[0] == p.Succs[1] {
				tags = nil
				break
			}
			op := token.EQL
			if p.Succs[1] == d {
				op = token.NEQ
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok || cmp.Op != op || !isTextual(cmp.X.Type()) {
				tags = nil
				break
			}
			x, k := cmp.X, cmp.Y
			if _, ok := x.(*ssa.Const); ok {
				x, k = k, x
			}
			kc, ok := k.(*ssa.Const)
			xr, xp := place(x)
			if !ok || xr != root || len(xp) != len(path)+1 {
				tags = nil
				break
			}
			for i := range path {
				if path[i] != xp[i] {
					tags = nil
				}
			}
			if tags == nil {
				break
			}
			if field != nil && field != xp[len(path)] || wanted != nil && wanted != xp[len(path)] {
				tags = nil
				break
			}
			field = xp[len(path)]
			tags[constant.StringVal(kc.Value)] = true
		}
		if len(tags) > 0 {
			return tags, field
		}
	}
	return nil, nil
}

func (e *nilness) resultNil(g *ssa.Function, k int) bool {
	if len(g.Blocks) == 0 || !e.r.inModule(g) {
		return false
	}
	key := fmt.Sprintf("%s/%d", g, k)
	if s := e.results[key]; s != 0 {
		return s == 3
	}
	e.results[key] = 1
	out := 2
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(ret.Results) {
			if e.mayNil(ret.Results[k], b, map[ssa.Value]bool{}) {
				out = 3
			}
		}
	}
	e.results[key] = out
	return out == 3
}

func (e *nilness) paramNil(p *ssa.Parameter) bool {
	if s := e.params[p]; s != 0 {
		return s == 3
	}
	e.params[p] = 1
	out := 2
	for i, q := range p.Parent().Params {
		if q != p {
			continue
		}
		for _, c := range e.r.callers(p.Parent()) {
			in := c.(ssa.Instruction)
			if _, ok := e.reached[in.Parent()]; !ok || c.Common().IsInvoke() || i >= len(c.Common().Args) {
				continue
			}
			if e.mayNil(c.Common().Args[i], in.Block(), map[ssa.Value]bool{}) {
				out = 3
				e.why[p] = e.r.pos(in.Pos()) + " " + in.Parent().Name()
			}
		}
	}
	e.params[p] = out
	return out == 3
}
