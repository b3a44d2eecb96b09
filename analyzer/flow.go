package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The must-flow analysis. For one obligation (a value v produced by an instruction, or a parameter) it
// computes at each program point the set of SSA values that certainly hold v, where "hold" means: are v,
// alias v, contain v (v was stored or appended into them) or were computed from v by a call whose
// summary says so. The domain is a set of values per point, joined by intersection; a point that cannot
// be reached with the obligation pending is top.

type holdset map[ssa.Value]bool

func (h holdset) clone() holdset {
	out := make(holdset, len(h))
	for k := range h {
		out[k] = true
	}
	return out
}

// flowKind selects what counts as carrying the obligation.
type flowKind int

const (
	flowBlock flowKind = iota // *vxmsgblock: containment and aliasing only
	flowMsg                   // *vxmsg: containment and aliasing only
	flowErr                   // error: also any text or object computed from it
)

type flowSummary struct {
	results map[int]bool // result i holds the parameter on every return
	params  map[int]bool // parameter i holds it (in place) on every return
	done    bool         // on every return the obligation is discharged some other way
}

type flowKey struct {
	fn    *ssa.Function
	param int
	kind  flowKind
}

type flowEngine struct {
	r         *repo
	blockPtr  types.Type
	msgPtr    types.Type
	errType   types.Type
	summaries map[flowKey]*flowSummary
	progress  map[flowKey]bool
	live      map[*ssa.Function]map[*ssa.BasicBlock]holdset
	// fields that state that a block has no error
	errField  string
	errTests  map[*ssa.Function]bool // functions returning exactly that field of their parameter
	reporters map[*ssa.Function]bool
	sentinels map[*ssa.Global]bool
	closing   bool // the obligation is the error of a Close: another pending error may take its place
}

func newFlowEngine(r *repo) *flowEngine {
	e := &flowEngine{
		r:         r,
		summaries: map[flowKey]*flowSummary{},
		progress:  map[flowKey]bool{},
		live:      map[*ssa.Function]map[*ssa.BasicBlock]holdset{},
		errField:  "iserror",
		errTests:  map[*ssa.Function]bool{},
		reporters: map[*ssa.Function]bool{},
		sentinels: map[*ssa.Global]bool{},
		errType:   types.Universe.Lookup("error").Type(),
	}
	if t := r.typ("vxmsgblock"); t != nil {
		e.blockPtr = types.NewPointer(t)
	}
	if t := r.typ("vxmsg"); t != nil {
		e.msgPtr = types.NewPointer(t)
	}
	for _, f := range r.funcs {
		if e.returnsErrFlag(f) {
			e.errTests[f] = true
		}
	}
	for _, m := range r.spkgs[r.vx].Members {
		if g, ok := m.(*ssa.Global); ok {
			if types.Identical(g.Type().(*types.Pointer).Elem(), e.msgPtr) {
				e.sentinels[g] = true
			}
		}
	}
	return e
}

// returnsErrFlag recognises a test function: one block parameter, every return is its error flag.
func (e *flowEngine) returnsErrFlag(f *ssa.Function) bool {
	if e.blockPtr == nil || len(f.Params) != 1 || !types.Identical(f.Params[0].Type(), e.blockPtr) || f.Signature.Results().Len() != 1 {
		return false
	}
	if !types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				n++
				if fieldOfLoad(ret.Results[0]) != e.errField {
					return false
				}
			}
		}
	}
	return n > 0
}

// fieldOfLoad returns the name of the field a value was loaded from.
func fieldOfLoad(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	return fieldName(fa)
}

func fieldName(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if s, ok := t.(*types.Struct); ok {
		return s.Field(fa.Field).Name()
	}
	return ""
}

// carries says whether a value of this type can hold a diagnostic.
func carries(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Tuple:
		return true
	}
	return true
}

// base strips address computations down to the object they point into.
func base(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

func (e *flowEngine) liveIn(f *ssa.Function) map[*ssa.BasicBlock]holdset {
	if l, ok := e.live[f]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]holdset{}
	for _, b := range f.Blocks {
		in[b] = holdset{}
	}
	changed := true
	for changed {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			out := holdset{}
			for _, s := range b.Succs {
				for v := range in[s] {
					out[v] = true
				}
				k := predIndex(s, b)
				for _, si := range s.Instrs {
					if phi, ok := si.(*ssa.Phi); ok {
						if k < len(phi.Edges) {
							out[phi.Edges[k]] = true
						}
						delete(out, phi)
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				e.liveStep(b.Instrs[j], out)
			}
			if len(out) != len(in[b]) {
				in[b] = out
				changed = true
			}
		}
	}
	e.live[f] = in
	return in
}

func (e *flowEngine) liveStep(instr ssa.Instruction, out holdset) {
	if v, ok := instr.(ssa.Value); ok {
		delete(out, v)
	}
	if _, ok := instr.(*ssa.Phi); ok {
		return
	}
	var buf [16]*ssa.Value
	for _, op := range instr.Operands(buf[:0]) {
		if op != nil && *op != nil {
			out[*op] = true
		}
	}
}

// liveAfter is the set of values used after instruction idx of block b.
func (e *flowEngine) liveAfter(b *ssa.BasicBlock, idx int) holdset {
	in := e.liveIn(b.Parent())
	out := holdset{}
	for _, s := range b.Succs {
		for v := range in[s] {
			out[v] = true
		}
		k := predIndex(s, b)
		for _, si := range s.Instrs {
			if phi, ok := si.(*ssa.Phi); ok && k < len(phi.Edges) {
				out[phi.Edges[k]] = true
			}
		}
	}
	for j := len(b.Instrs) - 1; j > idx; j-- {
		e.liveStep(b.Instrs[j], out)
	}
	return out
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

type flowLoss struct {
	instr ssa.Instruction
	why   string
}

// run follows one obligation through f. start is the instruction producing v, or nil for a parameter.
// atReturn is called with the hold set at each return reached with the obligation pending.
func (e *flowEngine) run(f *ssa.Function, start ssa.Instruction, vals []ssa.Value, kind flowKind,
	atReturn func(ret *ssa.Return, h holdset)) []flowLoss {
	var losses []flowLoss
	in := map[*ssa.BasicBlock]holdset{} // missing = top
	seedb, seedi := f.Blocks[0], -1
	if start != nil {
		seedb = start.Block()
		for i, x := range seedb.Instrs {
			if x == start {
				seedi = i
			}
		}
	}
	isSeed := map[ssa.Value]bool{}
	for _, v := range vals {
		isSeed[v] = true
	}
	lossAt := map[ssa.Instruction]bool{}
	var work []*ssa.BasicBlock
	queued := map[*ssa.BasicBlock]bool{}
	push := func(b *ssa.BasicBlock) {
		if !queued[b] {
			queued[b] = true
			work = append(work, b)
		}
	}
	flowOut := func(b *ssa.BasicBlock, h holdset) {
		for k, s := range b.Succs {
			if h == nil {
				continue
			}
			hs := h.clone()
			if e.dischargedOnEdge(b, k, hs, kind) {
				continue
			}
			pi := predIndexNth(s, b, k)
			var add, del []ssa.Value
			for _, si := range s.Instrs {
				phi, ok := si.(*ssa.Phi)
				if !ok {
					break
				}
				if hs[phi.Edges[pi]] {
					add = append(add, phi)
				} else {
					del = append(del, phi)
				}
			}
			for _, v := range del {
				delete(hs, v)
			}
			for _, v := range add {
				hs[v] = true
			}
			old, ok := in[s]
			if !ok {
				in[s] = hs
				push(s)
				continue
			}
			changed := false
			for v := range old {
				if !hs[v] {
					delete(old, v)
					changed = true
				}
			}
			if changed {
				push(s)
			}
		}
	}
	final := map[*ssa.Return]holdset{}
	step := func(b *ssa.BasicBlock, from int, h holdset) {
		for i := from; i < len(b.Instrs); i++ {
			instr := b.Instrs[i]
			if instr == start && from <= i {
				// produced again while the previous one is pending
				if h != nil {
					live := e.liveAfter(b, i)
					ok := false
					if c, isCall := instr.(*ssa.Call); isCall {
						for j, a := range c.Call.Args {
							if h[a] && e.callHolds(c, j, kind) {
								ok = true
							}
						}
					}
					for v := range h {
						if !isSeed[v] && live[v] {
							ok = true
						}
						switch v.(type) {
						case *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Alloc:
							ok = true
						}
					}
					if !ok && !lossAt[instr] {
						lossAt[instr] = true
						losses = append(losses, flowLoss{instr, "the value of the previous loop iteration is dropped"})
					}
				}
				h = holdset{}
				for _, v := range vals {
					if v == ssa.Value(nil) {
						continue
					}
					h[v] = true
				}
				continue
			}
			if h == nil {
				continue
			}
			if e.transfer(instr, h, kind) {
				h = nil
				continue
			}
			switch x := instr.(type) {
			case *ssa.Return:
				final[x] = h.clone()
			case *ssa.Panic:
				h = nil
			}
		}
		flowOut(b, h)
	}
	// seed
	h0 := holdset{}
	for _, v := range vals {
		h0[v] = true
	}
	step(seedb, seedi+1, h0)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		queued[b] = false
		step(b, 0, in[b].clone())
	}
	for _, b := range f.Blocks {
		for _, instr := range b.Instrs {
			if ret, ok := instr.(*ssa.Return); ok {
				if h, ok := final[ret]; ok {
					// the last fixpoint state
					atReturn(ret, h)
				}
			}
		}
	}
	return losses
}

func predIndexNth(s, p *ssa.BasicBlock, k int) int {
	// the k-th successor edge of p: when both edges of an if lead to s they are distinct predecessors
	n := 0
	for i := 0; i < k; i++ {
		if p.Succs[i] == s {
			n++
		}
	}
	for i, x := range s.Preds {
		if x == p {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return predIndex(s, p)
}

// dischargedOnEdge says whether taking the k-th edge out of b proves there was nothing to report.
func (e *flowEngine) dischargedOnEdge(b *ssa.BasicBlock, k int, h holdset, kind flowKind) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if bo, ok := iff.Cond.(*ssa.BinOp); ok && e.closing && types.Identical(bo.X.Type(), e.errType) && !h[bo.X] && !h[bo.Y] {
		if c, ok := bo.Y.(*ssa.Const); ok && c.IsNil() && (bo.Op == token.NEQ) == (k == 0) {
			return true
		}
	}
	return e.impliesNothing(iff.Cond, k == 0, h, kind, 0)
}

func (e *flowEngine) impliesNothing(cond ssa.Value, truth bool, h holdset, kind flowKind, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.impliesNothing(x.X, !truth, h, kind, depth+1)
		}
		if x.Op == token.MUL && kind == flowBlock && !truth {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldName(fa) == e.errField && h[fa.X] {
				return true
			}
		}
	case *ssa.Call:
		if s := x.Call.StaticCallee(); s != nil && e.errTests[s] && !truth && kind == flowBlock && h[x.Call.Args[0]] {
			return true
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		eq := x.Op == token.EQL
		isEmpty := func(v ssa.Value) bool {
			if c, ok := v.(*ssa.Const); ok && c.IsNil() {
				return true
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok && e.sentinels[g] {
					return true
				}
			}
			return false
		}
		if h[x.X] && isEmpty(x.Y) || h[x.Y] && isEmpty(x.X) {
			return eq == truth
		}
	}
	return false
}

// transfer updates h over one instruction; it returns true when the obligation is fully discharged.
func (e *flowEngine) transfer(instr ssa.Instruction, h holdset, kind flowKind) bool {
	set := func(v ssa.Value, on bool) {
		if on && carries(v.Type()) {
			h[v] = true
		} else {
			delete(h, v)
		}
	}
	switch x := instr.(type) {
	case *ssa.Phi:
		// done on the edge
	case *ssa.Store:
		bs := base(x.Addr)
		if h[x.Val] {
			h[bs] = true
			e.holdAliases(bs, h)
			if _, ok := bs.(*ssa.Global); ok {
				return true
			}
		} else if a, ok := x.Addr.(*ssa.Alloc); ok && h[a] {
			delete(h, a)
		}
	case *ssa.MapUpdate:
		if h[x.Value] || h[x.Key] {
			h[x.Map] = true
			e.holdAliases(x.Map, h)
		}
	case *ssa.Send:
		if h[x.X] {
			return true
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			on := h[x.X] || h[base(x.X)]
			set(x, on)
		} else {
			set(x, false)
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		delete(h, instr.(ssa.Value))
	case *ssa.MakeInterface:
		set(x, h[x.X])
	case *ssa.ChangeType:
		set(x, h[x.X])
	case *ssa.ChangeInterface:
		set(x, h[x.X])
	case *ssa.Convert:
		set(x, h[x.X])
	case *ssa.Slice:
		set(x, h[x.X])
	case *ssa.TypeAssert:
		set(x, h[x.X])
	case *ssa.Extract:
		set(x, h[x.Tuple])
		if !h[x] {
			// results of a call are tracked per index by extractHold
			if c, ok := x.Tuple.(*ssa.Call); ok {
				for j, a := range c.Call.Args {
					if h[a] && e.callResultHolds(c, j, x.Index, kind) {
						set(x, true)
					}
				}
			}
		}
	case *ssa.Field:
		set(x, h[x.X])
	case *ssa.Index:
		set(x, h[x.X])
	case *ssa.Lookup:
		set(x, h[x.X])
	case *ssa.BinOp:
		set(x, x.Op == token.ADD && (h[x.X] || h[x.Y]))
	case *ssa.MakeClosure:
		on := false
		for _, b := range x.Bindings {
			on = on || h[b]
		}
		set(x, on)
	case *ssa.Next:
		set(x, h[x.Iter])
	case *ssa.Range:
		set(x, h[x.X])
	case *ssa.Call:
		return e.transferCall(x, x, h, kind)
	case *ssa.Defer:
		return e.transferCall(x, nil, h, kind)
	case *ssa.Go:
		return e.transferCall(x, nil, h, kind)
	default:
		if v, ok := instr.(ssa.Value); ok {
			delete(h, v)
		}
	}
	return false
}

// holdAliases marks what certainly is the same object as v: the variable it was loaded from.
func (e *flowEngine) holdAliases(v ssa.Value, h holdset) {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				h[base(x.X)] = true
				v = base(x.X)
				continue
			}
		case *ssa.Call:
			// a call that returns its argument: the argument is the same object
			if s := x.Call.StaticCallee(); s != nil && s.Blocks != nil {
				if j := e.returnsParam(s); j >= 0 && j < len(x.Call.Args) {
					if !h[x.Call.Args[j]] {
						h[x.Call.Args[j]] = true
						v = x.Call.Args[j]
						continue
					}
				}
			}
		}
		return
	}
}

// returnsParam gives the index of the parameter every return of f returns as its block result, or -1.
func (e *flowEngine) returnsParam(f *ssa.Function) int {
	out := -1
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			if len(ret.Results) != 1 {
				return -1
			}
			j := e.aliasParam(f, ret.Results[0], 0)
			if j < 0 || out >= 0 && out != j {
				return -1
			}
			out = j
		}
	}
	return out
}

func (e *flowEngine) aliasParam(f *ssa.Function, v ssa.Value, depth int) int {
	if depth > 6 {
		return -1
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == x {
				return i
			}
		}
	case *ssa.Phi:
		out := -1
		for _, ed := range x.Edges {
			if ed == x {
				continue
			}
			j := e.aliasParam(f, ed, depth+1)
			if j < 0 || out >= 0 && out != j {
				return -1
			}
			out = j
		}
		return out
	case *ssa.Call:
		if s := x.Call.StaticCallee(); s != nil && s != f && s.Blocks != nil && e.r.inModule(s) {
			if j := e.returnsParam(s); j >= 0 && j < len(x.Call.Args) {
				return e.aliasParam(f, x.Call.Args[j], depth+1)
			}
		}
	}
	return -1
}

func (e *flowEngine) transferCall(c ssa.CallInstruction, val ssa.Value, h holdset, kind flowKind) bool {
	cc := c.Common()
	on := false
	if cc.IsInvoke() && h[cc.Value] && kind == flowErr {
		on = true
	}
	if s := cc.StaticCallee(); s != nil && e.reporters[s] {
		for _, a := range cc.Args {
			if h[a] {
				return true
			}
		}
	}
	if fv, ok := cc.Value.(*ssa.Builtin); ok {
		switch fv.Name() {
		case "append":
			for _, a := range cc.Args {
				on = on || h[a]
			}
		case "copy":
			if h[cc.Args[1]] {
				h[cc.Args[0]] = true
				e.holdAliases(cc.Args[0], h)
			}
		}
		if val != nil {
			if on {
				h[val] = true
			} else {
				delete(h, val)
			}
		}
		return false
	}
	var newParams []ssa.Value
	for j, a := range cc.Args {
		if !h[a] {
			continue
		}
		s := cc.StaticCallee()
		switch {
		case s != nil && s.Blocks != nil && e.r.inModule(s):
			sum := e.summary(s, j, kind)
			if sum.done {
				return true
			}
			if cc.Signature().Results().Len() == 1 && sum.results[0] {
				on = true
			}
			if kind == flowErr && val != nil && types.Identical(val.Type(), e.msgPtr) {
				// message constructors put every argument into the text, which rule "text" checks
				on = true
			}
			for p := range sum.params {
				if p < len(cc.Args) && p != j {
					newParams = append(newParams, cc.Args[p])
				}
			}
			// a result that is the same object as a parameter that now holds it
			if rp := e.returnsParam(s); rp >= 0 && (sum.params[rp] || rp == j) {
				on = true
			}
		case s == nil && !cc.IsInvoke():
			// dynamic call with the value: the callee has it now
			return true
		default:
			if kind == flowErr {
				on = true
			}
		}
	}
	// an argument that is held stays held; the object returned by a call returning its argument is held
	if s := cc.StaticCallee(); s != nil && s.Blocks != nil && e.r.inModule(s) {
		if rp := e.returnsParam(s); rp >= 0 && rp < len(cc.Args) && h[cc.Args[rp]] {
			on = true
		}
	}
	for _, p := range newParams {
		h[p] = true
		e.holdAliases(p, h)
	}
	if val != nil {
		if _, isTuple := val.Type().(*types.Tuple); isTuple {
			if on && kind == flowErr {
				h[val] = true
			} else {
				delete(h, val)
			}
		} else if on && carries(val.Type()) {
			h[val] = true
		} else {
			delete(h, val)
		}
	}
	return false
}

func (e *flowEngine) callHolds(c *ssa.Call, arg int, kind flowKind) bool {
	s := c.Call.StaticCallee()
	if s == nil || s.Blocks == nil || !e.r.inModule(s) {
		return kind == flowErr
	}
	sum := e.summary(s, arg, kind)
	return sum.done || len(sum.results) > 0 || len(sum.params) > 0 || e.returnsParam(s) == arg
}

func (e *flowEngine) callResultHolds(c *ssa.Call, arg, res int, kind flowKind) bool {
	s := c.Call.StaticCallee()
	if s == nil || s.Blocks == nil || !e.r.inModule(s) {
		return kind == flowErr
	}
	return e.summary(s, arg, kind).results[res]
}

// summary computes where parameter param of f is held on every return.
func (e *flowEngine) summary(f *ssa.Function, param int, kind flowKind) *flowSummary {
	k := flowKey{f, param, kind}
	if s, ok := e.summaries[k]; ok {
		return s
	}
	if e.progress[k] {
		// recursive: assume it holds, the other paths decide
		s := &flowSummary{results: map[int]bool{}, params: map[int]bool{}}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			s.results[i] = true
		}
		return s
	}
	e.progress[k] = true
	defer delete(e.progress, k)
	closing := e.closing
	e.closing = false
	defer func() { e.closing = closing }()
	sum := &flowSummary{results: map[int]bool{}, params: map[int]bool{}}
	if param >= len(f.Params) {
		e.summaries[k] = sum
		return sum
	}
	first := true
	e.run(f, nil, []ssa.Value{f.Params[param]}, kind, func(ret *ssa.Return, h holdset) {
		for v := range h {
			if _, ok := v.(*ssa.FreeVar); ok {
				// a variable of the enclosing function has it, which is checked where it was declared
				return
			}
		}
		res := map[int]bool{}
		for i, v := range ret.Results {
			if h[v] {
				res[i] = true
			}
		}
		par := map[int]bool{}
		for i, p := range f.Params {
			if i != param && h[p] {
				par[i] = true
			}
		}
		if first {
			sum.results, sum.params = res, par
			first = false
			return
		}
		for i := range sum.results {
			if !res[i] {
				delete(sum.results, i)
			}
		}
		for i := range sum.params {
			if !par[i] {
				delete(sum.params, i)
			}
		}
	})
	if first {
		sum.done = true
	}
	e.summaries[k] = sum
	return sum
}
