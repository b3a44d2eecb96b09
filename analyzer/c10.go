package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{
		id:        "C10",
		technique: "must-coverage dataflow over the SSA of the linking and validating stages: every reference-bearing attribute of every definition reaches a lookup or a type check on every path, and every failed lookup or failed comparison reaches a diagnostic",
		assumptions: []string{
			"attributes a definition can get from source text are the ones the parsing functions store",
			"a value made by the linking stage from a found definition needs no second lookup",
			"what a comparison of two types accepts is not judged, only that it is made and that its verdict is obeyed",
		},
		run: checkC10,
	})
}

type refCheck struct {
	r       *repo
	x       *result
	w       *wordParser // for the functions that always add an error
	scope   types.Type
	value   types.Type
	def     map[string]types.Type // vxtype, vxfunc, vxconst, vxarg, vxpackage
	block   types.Type
	lookups map[*ssa.Function][]int // lookup functions and the parameters that are the name looked up
	verdict map[*ssa.Function]int   // functions that compare definitions and the index of their boolean result
	loops   map[*ssa.Function][]*loop
	// functions from which a comparison is reached
	validates map[*ssa.Function]bool
	stage     map[*ssa.Function]*ssa.Function // functions of the linking and validating stages
}

func checkC10(r *repo, x *result) {
	x.rule("resolve", "for every attribute of a type, constant, function or argument that parsing fills with a name, a list of names or a value, the linking stage hands it to a lookup on every path of every iteration over all definitions of all packages (only an empty attribute is exempt), and no such loop is left early without an error")
	x.rule("check", "for every value and every test of every definition the validating stage compares the value with its declared type, on every path of every iteration, under the same exemptions")
	x.rule("kinds", "for every kind of value parsing can produce that contains names, the linking of a value looks them up on every path, and its validation descends into it")
	x.rule("missing", "when a lookup fails, every path adds an error, tries another lookup of the same name, or reports the failure to its caller")
	x.rule("verdict", "when a comparison of a value with a type fails, every path adds an error, tries another comparison, or reports the failure to its caller; a loop over several comparisons never forgets an earlier failure")
	x.rule("compared", "validating a value cannot finish without a comparison or an error, except for native and absent values and for declared types that are named as accepting anything")
	x.rule("forbid", "each list of disallowed types, functions and values is walked completely while comparing, and a match adds an error")

	c := &refCheck{r: r, x: x, def: map[string]types.Type{}, loops: map[*ssa.Function][]*loop{}}
	c.w = &wordParser{r: r, x: x, must: map[*ssa.Function]int{}, adders: errorAdders(r)}
	c.scope, c.value, c.block = r.typ("vxscope"), r.typ("vxvalue"), r.typ("vxmsgblock")
	for _, n := range []string{"vxtype", "vxfunc", "vxconst", "vxarg", "vxpackage"} {
		c.def[n] = r.typ(n)
		if c.def[n] == nil {
			x.fail("resolve", n, "-", "the definition type %s is gone", n)
			return
		}
	}
	if c.scope == nil || c.value == nil || c.block == nil {
		x.fail("resolve", "vxscope", "-", "the types of scopes, values or diagnostics are gone")
		return
	}
	from := r.reach(r.spkgs[r.main].Func("main"))
	c.findLookups(from)
	c.findVerdicts(from)
	x.analysed["lookup functions"] = len(c.lookups)
	x.analysed["comparison functions"] = len(c.verdict)
	c.stages(from)
	c.kinds(from)
	c.missing(from)
	c.verdicts(from)
	c.forbid(from)
	x.atLeast("resolve", 15)
	x.atLeast("check", 5)
	x.atLeast("kinds", 4)
	x.atLeast("missing", 10)
	x.atLeast("verdict", 4)
	x.atLeast("compared", 1)
	x.atLeast("forbid", 3)
}

func (c *refCheck) isScopes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), c.scope)
}

func (c *refCheck) loopsOf(f *ssa.Function) []*loop {
	l, ok := c.loops[f]
	if !ok {
		l = naturalLoops(f)
		c.loops[f] = l
	}
	return l
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// findLookups: functions that take the scopes and a name and return what was found and whether it was.
func (c *refCheck) findLookups(from map[*ssa.Function]*ssa.Function) {
	c.lookups = map[*ssa.Function][]int{}
	var cand []*ssa.Function
	for _, f := range c.r.funcs {
		if _, ok := from[f]; !ok || f.Signature.Results().Len() != 2 || !isBool(f.Signature.Results().At(1).Type()) {
			continue
		}
		scopes := false
		for _, p := range f.Params {
			scopes = scopes || c.isScopes(p.Type())
		}
		if scopes {
			cand = append(cand, f)
			c.lookups[f] = nil
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range cand {
			for i, p := range f.Params {
				if !isString(p.Type()) || hasInt(c.lookups[f], i) {
					continue
				}
				used := false
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						switch y := in.(type) {
						case *ssa.Lookup:
							used = used || inCone(y.Index, p, 0)
						case *ssa.Call:
							if s := y.Call.StaticCallee(); s != nil {
								for _, k := range c.lookups[s] {
									used = used || inCone(y.Call.Args[k], p, 0)
								}
							}
						}
					}
				}
				if used {
					c.lookups[f] = append(c.lookups[f], i)
					changed = true
				}
			}
		}
	}
	for f, n := range c.lookups {
		if len(n) == 0 {
			delete(c.lookups, f)
		}
	}
}

// localLookup: a lookup of local names, which may fail because another kind of name is meant.
func (c *refCheck) localLookup(f *ssa.Function) bool {
	return types.Identical(f.Signature.Results().At(0).Type(), c.def["vxarg"])
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func hasInt(l []int, i int) bool {
	for _, k := range l {
		if k == i {
			return true
		}
	}
	return false
}

// findVerdicts: functions that compare two definitions and return a boolean.
func (c *refCheck) findVerdicts(from map[*ssa.Function]*ssa.Function) {
	c.verdict = map[*ssa.Function]int{}
	sig := c.r.typ("vxsignature")
	for _, f := range c.r.funcs {
		if _, ok := from[f]; !ok {
			continue
		}
		n := 0
		for _, p := range f.Params {
			if isPtrTo(p.Type(), c.def["vxtype"]) || isPtrTo(p.Type(), c.def["vxfunc"]) || isPtrTo(p.Type(), c.def["vxconst"]) || sig != nil && isPtrTo(p.Type(), sig) {
				n++
			}
			if c.isScopes(p.Type()) {
				n = -9
			}
		}
		if n < 2 {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isBool(res.At(i).Type()) {
				c.verdict[f] = i
			}
		}
	}
}

// inCone: v is computed from target.
func inCone(v, target ssa.Value, depth int) bool {
	return coneHas(v, func(y ssa.Value) bool { return y == target }, map[ssa.Value]bool{})
}

func coneHas(v ssa.Value, is func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] || len(seen) > 400 {
		return false
	}
	seen[v] = true
	if is(v) {
		return true
	}
	switch y := v.(type) {
	case *ssa.Phi:
		for _, e := range y.Edges {
			if coneHas(e, is, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al && coneHas(st.Val, is, seen) {
					return true
				}
			}
		}
		return coneHas(y.X, is, seen)
	case *ssa.BinOp:
		return coneHas(y.X, is, seen) || coneHas(y.Y, is, seen)
	case *ssa.Extract:
		return coneHas(y.Tuple, is, seen)
	case *ssa.Call:
		for _, a := range y.Call.Args {
			if coneHas(a, is, seen) {
				return true
			}
		}
	case *ssa.Field:
		return coneHas(y.X, is, seen)
	case *ssa.FieldAddr:
		return coneHas(y.X, is, seen)
	case *ssa.Slice:
		return coneHas(y.X, is, seen)
	case *ssa.TypeAssert:
		return coneHas(y.X, is, seen)
	case *ssa.MakeInterface:
		return coneHas(y.X, is, seen)
	case *ssa.ChangeType:
		return coneHas(y.X, is, seen)
	case *ssa.Convert:
		return coneHas(y.X, is, seen)
	case *ssa.IndexAddr:
		return coneHas(y.X, is, seen)
	case *ssa.Index:
		return coneHas(y.X, is, seen)
	case *ssa.Lookup:
		return coneHas(y.X, is, seen) || coneHas(y.Index, is, seen)
	}
	return false
}

// things are the SSA values that are one object inside a function: the values themselves and the
// addresses the object is stored at.
type things struct {
	vals map[ssa.Value]bool
	ptrs map[ssa.Value]bool
}

func newThings() *things { return &things{map[ssa.Value]bool{}, map[ssa.Value]bool{}} }

func (t *things) empty() bool { return len(t.vals) == 0 && len(t.ptrs) == 0 }

// close adds copies of the object: phis, local variables, results of functions that update it.
func (t *things) close(r *repo) *things {
	var work []ssa.Value
	for v := range t.vals {
		work = append(work, v)
	}
	var ptrs []ssa.Value
	for p := range t.ptrs {
		ptrs = append(ptrs, p)
	}
	addVal := func(v ssa.Value) {
		if !t.vals[v] {
			t.vals[v] = true
			work = append(work, v)
		}
	}
	addPtr := func(p ssa.Value) {
		if !t.ptrs[p] {
			t.ptrs[p] = true
			ptrs = append(ptrs, p)
		}
	}
	for len(work) > 0 || len(ptrs) > 0 {
		if len(ptrs) > 0 {
			p := ptrs[len(ptrs)-1]
			ptrs = ptrs[:len(ptrs)-1]
			if refs := p.Referrers(); refs != nil {
				for _, ref := range *refs {
					if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == p {
						addVal(u)
					}
				}
			}
			continue
		}
		v := work[len(work)-1]
		work = work[:len(work)-1]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, ref := range *refs {
			switch y := ref.(type) {
			case *ssa.Store:
				if al, ok := y.Addr.(*ssa.Alloc); ok && y.Val == v {
					addPtr(al)
				}
			case *ssa.Phi:
				addVal(y)
			case *ssa.ChangeType:
				addVal(y)
			case *ssa.Call:
				s := y.Call.StaticCallee()
				if s == nil || !r.inModule(s) || isString(v.Type()) {
					continue
				}
				if types.Identical(y.Type(), v.Type()) {
					addVal(y)
				}
				if tup, ok := y.Type().(*types.Tuple); ok {
					for _, er := range *y.Referrers() {
						if ex, ok := er.(*ssa.Extract); ok && types.Identical(tup.At(ex.Index).Type(), v.Type()) {
							addVal(ex)
						}
					}
				}
			}
		}
	}
	return t
}

// field gives the things that are the named field of t.
func (t *things) field(r *repo, name string) *things {
	out := newThings()
	use := func(v ssa.Value) {
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, ref := range *refs {
			switch y := ref.(type) {
			case *ssa.Field:
				if fv := fieldVar(y.X.Type(), y.Field); fv != nil && fv.Name() == name {
					out.vals[y] = true
				}
			case *ssa.FieldAddr:
				if y.X == v && fieldName(y) == name {
					out.ptrs[y] = true
				}
			}
		}
	}
	for v := range t.vals {
		use(v)
	}
	for p := range t.ptrs {
		use(p)
	}
	return out.close(r)
}

// native gives the things of the wanted type taken out of the value t.
func (t *things) native(r *repo, want types.Type) *things {
	out := newThings()
	for v := range t.vals {
		for _, ref := range *v.Referrers() {
			if call, ok := ref.(*ssa.Call); ok && types.Identical(call.Type(), want) {
				out.vals[call] = true
			}
		}
	}
	nat := t.field(r, "native")
	for v := range nat.vals {
		for _, ref := range *v.Referrers() {
			if ta, ok := ref.(*ssa.TypeAssert); ok && types.Identical(ta.AssertedType, want) {
				if !ta.CommaOk {
					out.vals[ta] = true
				} else {
					for _, er := range *ta.Referrers() {
						if ex, ok := er.(*ssa.Extract); ok && ex.Index == 0 {
							out.vals[ex] = true
						}
					}
				}
			}
		}
	}
	return out.close(r)
}

// elements gives the things that are the current element of t in l; complete says that l starts at the
// first element.
func (t *things) elements(r *repo, l *loop) (*things, bool) {
	out := newThings()
	complete := false
	for b := range l.body {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !t.vals[ia.X] {
				continue
			}
			if whole := wholeIndex(l, ia.Index); whole {
				out.ptrs[ia] = true
				complete = true
			}
		}
	}
	return out.close(r), complete
}

// wholeIndex: idx is an induction variable of l that runs from the first element in steps of one.
func wholeIndex(l *loop, idx ssa.Value) bool {
	isStep := func(v, phi ssa.Value) bool {
		bo, ok := v.(*ssa.BinOp)
		return ok && bo.Op == token.ADD && bo.X == phi && isConstInt(bo.Y, 1)
	}
	try := func(phi *ssa.Phi, first int64) bool {
		if phi.Block() != l.head {
			return false
		}
		for i, e := range phi.Edges {
			if l.body[phi.Block().Preds[i]] {
				if !isStep(e, phi) {
					return false
				}
			} else if !isConstInt(e, first) {
				return false
			}
		}
		return true
	}
	switch y := idx.(type) {
	case *ssa.Phi:
		return try(y, 0)
	case *ssa.BinOp:
		if phi, ok := y.X.(*ssa.Phi); ok && isStep(y, phi) {
			return try(phi, -1)
		}
	}
	return false
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	k, exact := constant.Int64Val(c.Value)
	return exact && k == n
}

// coverage decides whether every object reached from a value along a path of steps ("[]" for each
// element, a field name, or "native:" and a type) is handed to a terminal on every path.
type coverage struct {
	c        *refCheck
	terminal func(call *ssa.Call, t *things) bool
	exempt   func(cond ssa.Value, truth bool, chain []*things) bool
	kind     string // the kind the value parameter is known to have, "" if not known
	natives  map[string]types.Type
	memo     map[string]int
	why      map[string]string
}

func (v *coverage) param(f *ssa.Function, i int, path []string) bool {
	if f.Blocks == nil {
		return false
	}
	key := fmt.Sprintf("%p %d %s %s", f, i, v.kind, strings.Join(path, "/"))
	if m, ok := v.memo[key]; ok {
		return m == 2
	}
	v.memo[key] = 1
	t := newThings()
	t.vals[f.Params[i]] = true
	kind := v.kind
	ok, why := v.region(f, f.Blocks[0], nil, t.close(v.c.r), path, nil)
	v.kind = kind
	if ok {
		v.memo[key] = 2
	} else {
		v.note(path, f, why)
	}
	return ok
}

func (v *coverage) note(path []string, f *ssa.Function, why string) {
	if why == "" || !v.c.returnsBlock(f) {
		return
	}
	k := strings.Join(path, "/")
	if v.why[k] == "" {
		v.why[k] = fname(f) + ": " + why
	}
}

type covEvents struct {
	instrs map[ssa.Instruction]bool
	heads  map[*ssa.BasicBlock]bool
	chain  []*things
	why    []string
}

func (v *coverage) events(f *ssa.Function, t *things, path []string, ev *covEvents) {
	ev.chain = append(ev.chain, t)
	if t.empty() {
		return
	}
	// handed on as a whole
	kind := v.kind
	for val := range t.vals {
		refs := val.Referrers()
		if refs == nil {
			continue
		}
		for _, ref := range *refs {
			call, ok := ref.(*ssa.Call)
			if !ok {
				continue
			}
			s := call.Call.StaticCallee()
			if s == nil || !v.c.r.inModule(s) {
				continue
			}
			for k, a := range call.Call.Args {
				if a != val {
					continue
				}
				v.kind = ""
				if len(path) > 0 && v.param(s, k, path) {
					ev.instrs[call] = true
				}
				v.kind = kind
			}
		}
	}
	if len(path) == 0 {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && v.terminal(call, t) {
					ev.instrs[call] = true
				}
			}
		}
		for val := range t.vals {
			for _, ref := range *val.Referrers() {
				call, ok := ref.(*ssa.Call)
				if !ok || ev.instrs[call] {
					continue
				}
				s := call.Call.StaticCallee()
				if s == nil || !v.c.r.inModule(s) || v.c.lookups[s] != nil {
					continue
				}
				for k, a := range call.Call.Args {
					if a == val {
						v.kind = ""
						if v.param(s, k, nil) {
							ev.instrs[call] = true
						}
						v.kind = kind
					}
				}
			}
		}
		return
	}
	switch {
	case path[0] == "[]":
		for _, l := range v.c.loopsOf(f) {
			el, complete := t.elements(v.c.r, l)
			if !complete {
				continue
			}
			body := bodyEntry(l)
			if body == nil {
				continue
			}
			if why := v.leavesEarly(l); why != "" {
				ev.why = append(ev.why, "the loop at "+v.c.r.pos(l.pos())+" "+why)
				continue
			}
			ok, why := v.region(f, body, l, el, path[1:], ev.chain)
			if ok {
				ev.heads[l.head] = true
			} else if why != "" {
				ev.why = append(ev.why, why)
			}
		}
	case strings.HasPrefix(path[0], "native:"):
		v.events(f, t.native(v.c.r, v.natives[path[0]]), path[1:], ev)
	default:
		v.events(f, t.field(v.c.r, path[0]), path[1:], ev)
	}
}

func bodyEntry(l *loop) *ssa.BasicBlock {
	for _, s := range l.head.Succs {
		if l.body[s] && s != l.head {
			return s
		}
	}
	return nil
}

// leavesEarly: the loop is left before its end on a path without an error.
func (v *coverage) leavesEarly(l *loop) string {
	for b := range l.body {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if l.body[s] {
				continue
			}
			err := false
			for d := b; d != nil && l.body[d]; d = d.Idom() {
				for _, in := range d.Instrs {
					if v.c.addsError(in) {
						err = true
					}
				}
			}
			if !err {
				return "can be left before the last element"
			}
		}
		if len(b.Succs) == 0 && len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return "can be left before the last element"
			}
		}
	}
	return ""
}

func (c *refCheck) addsError(in ssa.Instruction) bool {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	s := call.Common().StaticCallee()
	return s != nil && c.r.inModule(s) && c.w.mustError(s)
}

// region: every path from start to the end of the function (or of the iteration of l) passes an event.
func (v *coverage) region(f *ssa.Function, start *ssa.BasicBlock, l *loop, t *things, path []string, outer []*things) (bool, string) {
	ev := &covEvents{instrs: map[ssa.Instruction]bool{}, heads: map[*ssa.BasicBlock]bool{}}
	v.events(f, t, path, ev)
	chain := append(append([]*things{}, ev.chain...), outer...)
	seen := map[*ssa.BasicBlock]bool{}
	why := ""
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if l != nil && (b == l.head || !l.body[b]) {
			why = "an iteration of the loop at " + v.c.r.pos(l.pos()) + " can end without it"
			return false
		}
		if ev.heads[b] {
			return true
		}
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if ev.instrs[in] || v.c.addsError(in) {
				return true
			}
			switch y := in.(type) {
			case *ssa.Return:
				why = "the return at " + v.c.r.pos(y.Pos()) + " can be reached without it"
				return false
			case *ssa.Panic:
				return true
			case *ssa.If:
				for k, s := range b.Succs {
					if v.exempt(y.Cond, k == 0, chain) || v.excluded(y.Cond, k == 0, t) || v.c.foundLocally(y.Cond, k == 0, ev.chain) {
						continue
					}
					if !walk(s) {
						return false
					}
				}
				return true
			}
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	ok := walk(start)
	if ok {
		return true, ""
	}
	if len(ev.why) > 0 {
		return false, ev.why[0]
	}
	return false, why
}

// foundLocally: the branch is taken when the name is that of a local variable.
func (c *refCheck) foundLocally(cond ssa.Value, truth bool, chain []*things) bool {
	ex, ok := cond.(*ssa.Extract)
	if !ok || !truth {
		return false
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	s := call.Call.StaticCallee()
	if s == nil || c.lookups[s] == nil || !c.localLookup(s) {
		return false
	}
	last := chain[len(chain)-1]
	for _, i := range c.lookups[s] {
		if last.vals[call.Call.Args[i]] {
			return true
		}
	}
	return false
}

// excluded: the branch is impossible for the kind of value that is followed.
func (v *coverage) excluded(cond ssa.Value, truth bool, t *things) bool {
	if v.kind == "" {
		return false
	}
	s, eq, ok := fieldIsConst(cond, truth, "code", []*things{t})
	if !ok {
		return false
	}
	return eq != (s == v.kind)
}

// fieldIsConst: cond, having the value truth, compares the named string field of one of the things with a
// constant; eq says whether it is then equal.
func fieldIsConst(cond ssa.Value, truth bool, field string, ts []*things) (s string, eq bool, ok bool) {
	bo, isb := cond.(*ssa.BinOp)
	if !isb || bo.Op != token.EQL && bo.Op != token.NEQ {
		return
	}
	a, k := bo.X, bo.Y
	if _, isc := a.(*ssa.Const); isc {
		a, k = k, a
	}
	kc, isc := k.(*ssa.Const)
	if !isc || kc.Value == nil || kc.Value.Kind() != constant.String {
		return
	}
	if !loadsField(a, field, ts, 0) {
		return
	}
	return constant.StringVal(kc.Value), truth == (bo.Op == token.EQL), true
}

// loadsField: a is the field of one of the things ("" for the thing itself).
func loadsField(a ssa.Value, field string, ts []*things, depth int) bool {
	if depth > 4 {
		return false
	}
	if field == "" {
		for _, t := range ts {
			if t.vals[a] {
				return true
			}
		}
	}
	switch y := a.(type) {
	case *ssa.Phi:
		for _, e := range y.Edges {
			if loadsField(e, field, ts, depth+1) {
				return true
			}
		}
	case *ssa.Field:
		fv := fieldVar(y.X.Type(), y.Field)
		for _, t := range ts {
			if fv != nil && fv.Name() == field && t.vals[y.X] {
				return true
			}
		}
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL && fieldName(fa) == field {
			for _, t := range ts {
				if t.vals[fa.X] || t.ptrs[fa.X] {
					return true
				}
			}
		}
	}
	return false
}

// emptyEdge: the branch is only taken when something on the way to the attribute is empty.
func (c *refCheck) emptyEdge(cond ssa.Value, truth bool, chain []*things) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return c.emptyEdge(u.X, !truth, chain)
	}
	// an object that already is the result of a lookup, or is made from a function
	for _, flag := range []string{"isfunc", "iscopied"} {
		if truth && loadsField(cond, flag, chain, 0) {
			return true
		}
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, field := range []string{"", "name", "code"} {
		if s, eq, ok := fieldIsConst(cond, truth, field, chain); ok {
			if s == "" && eq {
				return true
			}
			// a parent that is one of the built-in kinds
			if field == "" && eq && strings.HasPrefix(s, ":") {
				return true
			}
		}
	}
	if s, eq, ok := fieldIsConst(cond, truth, "pkg", chain); ok && eq && s == ":native" {
		return true
	}
	if len(chain) > 0 {
		var refs []*things
		for _, t := range chain {
			for v := range t.vals {
				if isPtrTo(v.Type(), c.def["vxtype"]) {
					refs = append(refs, t)
					break
				}
			}
		}
		// a type that has a parent already is a complete type
		if s, eq, ok := fieldIsConst(cond, truth, "extends", refs); ok && s == "" && !eq && !c.ownExtends(chain) {
			return true
		}
	}
	in := func(v ssa.Value) bool {
		for _, t := range chain {
			if t.vals[v] {
				return true
			}
		}
		return false
	}
	if isNilConst(bo.Y) && in(bo.X) {
		return truth == (bo.Op == token.EQL)
	}
	if call, ok := bo.X.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && in(call.Call.Args[0]) {
			switch {
			case isConstInt(bo.Y, 0):
				switch bo.Op {
				case token.EQL, token.LEQ:
					return truth
				case token.NEQ, token.GTR:
					return !truth
				}
			case isConstInt(bo.Y, 1):
				switch bo.Op {
				case token.LSS:
					return truth
				case token.GEQ:
					return !truth
				}
			}
		}
	}
	return false
}

// ownExtends: the attribute followed is the parent itself.
func (c *refCheck) ownExtends(chain []*things) bool {
	for _, t := range chain {
		for p := range t.ptrs {
			if fa, ok := p.(*ssa.FieldAddr); ok && fieldName(fa) == "extends" {
				return true
			}
		}
	}
	return false
}

// attribute is one reference-bearing attribute and the steps to it from a list of packages.
type attribute struct {
	name string
	path []string
	typ  types.Type
}

// refKind: what a type of an attribute leads to: "type", "func", "const", "value", "arg" or "".
func (c *refCheck) refKind(t types.Type) (string, bool) {
	list := false
	if s, ok := t.(*types.Slice); ok {
		t, list = s.Elem(), true
	}
	switch {
	case isPtrTo(t, c.def["vxtype"]):
		return "type", list
	case isPtrTo(t, c.def["vxfunc"]):
		return "func", list
	case isPtrTo(t, c.def["vxconst"]):
		return "const", list
	case types.Identical(t, c.value):
		return "value", list
	case types.Identical(t, c.def["vxarg"]):
		return "arg", list
	}
	return "", false
}

// parsed are the attributes the parsing functions store, by definition type.
func (c *refCheck) parsed(from map[*ssa.Function]*ssa.Function) (map[string][]string, map[*ssa.Function]*ssa.Function) {
	tb := c.r.typ("vxtextblock")
	var roots []*ssa.Function
	for _, f := range c.r.funcs {
		if _, ok := from[f]; !ok {
			continue
		}
		takes := false
		for _, p := range f.Params {
			if isPtrTo(p.Type(), tb) {
				takes = true
			}
			if c.isScopes(p.Type()) {
				takes = false
				break
			}
		}
		if !takes {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			k, _ := c.refKind(res.At(i).Type())
			if k == "" {
				continue
			}
			// a parsing function makes a definition, it is not given one of the same kind to update
			given := false
			for _, p := range f.Params {
				if types.Identical(p.Type(), res.At(i).Type()) {
					given = true
				}
			}
			if !given {
				roots = append(roots, f)
			}
		}
	}
	parsing := map[*ssa.Function]*ssa.Function{}
	out := map[string][]string{}
	if len(roots) == 0 {
		return out, parsing
	}
	parsing = c.r.reach(roots...)
	set := map[string]bool{}
	for _, f := range roots {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for n, d := range c.def {
					if isPtrTo(fa.X.Type(), d) {
						set[n+"."+fieldName(fa)] = true
					}
				}
			}
		}
	}
	for k := range set {
		i := strings.Index(k, ".")
		out[k[:i]] = append(out[k[:i]], k[i+1:])
	}
	for k := range out {
		sort.Strings(out[k])
	}
	return out, parsing
}

func (c *refCheck) fieldType(def, field string) types.Type {
	st, ok := c.def[def].Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i).Type()
		}
	}
	return nil
}

// attributes lists every reference-bearing attribute reachable from a list of packages.
func (c *refCheck) attributes(parsed map[string][]string) (link, values []attribute) {
	pst := c.def["vxpackage"].Underlying().(*types.Struct)
	for i := 0; i < pst.NumFields(); i++ {
		f := pst.Field(i)
		s, ok := f.Type().(*types.Slice)
		if !ok {
			continue
		}
		for _, def := range []string{"vxtype", "vxconst", "vxfunc"} {
			if !isPtrTo(s.Elem(), c.def[def]) || !strings.HasPrefix(f.Name(), "list") {
				continue
			}
			base := []string{"[]", f.Name(), "[]"}
			for _, attr := range parsed[def] {
				t := c.fieldType(def, attr)
				k, list := c.refKind(t)
				path := append(append([]string{}, base...), attr)
				if list {
					path = append(path, "[]")
				}
				name := strings.TrimPrefix(def, "vx") + " " + attr
				switch k {
				case "type", "func", "const":
					link = append(link, attribute{name, path, t})
				case "value":
					link = append(link, attribute{name, path, t})
					values = append(values, attribute{name, path, t})
				case "arg":
					link = append(link, attribute{name + " type", append(append([]string{}, path...), "vxtype"), t})
					if def == "vxfunc" {
						link = append(link, attribute{name + " default", append(append([]string{}, path...), "value"), t})
					}
					values = append(values, attribute{name + " default", append(append([]string{}, path...), "value"), t})
				default:
					if def == "vxtype" && attr == "extends" {
						link = append(link, attribute{name, path, t})
					}
				}
			}
		}
	}
	return
}

func (c *refCheck) newCoverage(terminal func(*ssa.Call, *things) bool) *coverage {
	return &coverage{c: c, terminal: terminal, exempt: c.emptyEdge, memo: map[string]int{}, why: map[string]string{},
		natives: map[string]types.Type{
			"native:func":    types.NewPointer(c.def["vxfunc"]),
			"native:arg":     c.def["vxarg"],
			"native:arglist": types.NewSlice(c.def["vxarg"]),
		}}
}

// looksUp: the call looks up the name in t, or links the value t.
func (c *refCheck) looksUp(call *ssa.Call, t *things) bool {
	s := call.Call.StaticCallee()
	if s == nil {
		return false
	}
	if names := c.lookups[s]; names != nil {
		if c.localLookup(s) {
			return false
		}
		for _, i := range names {
			if coneHas(call.Call.Args[i], func(y ssa.Value) bool {
				if isString(y.Type()) && t.vals[y] {
					return true
				}
				return loadsField(y, "name", []*things{t}, 0)
			}, map[ssa.Value]bool{}) {
				return true
			}
		}
		return false
	}
	if !c.isLinker(s) {
		return false
	}
	for i, a := range call.Call.Args {
		if t.vals[a] && types.Identical(s.Params[i].Type(), c.value) {
			return true
		}
	}
	return false
}

func (c *refCheck) returnsBlock(f *ssa.Function) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isPtrTo(res.At(i).Type(), c.block) {
			return true
		}
	}
	return false
}

// isLinker: the function links one value. isValidator: the function checks one value.
func (c *refCheck) isLinker(f *ssa.Function) bool {
	v, s := 0, 0
	for _, p := range f.Params {
		if types.Identical(p.Type(), c.value) {
			v++
		}
		if c.isScopes(p.Type()) {
			s++
		}
	}
	return v == 1 && s == 1 && c.returnsBlock(f) && c.r.inModule(f)
}

func (c *refCheck) isValidator(f *ssa.Function) bool {
	v, t := 0, 0
	for _, p := range f.Params {
		if types.Identical(p.Type(), c.value) {
			v++
		}
		if isPtrTo(p.Type(), c.def["vxtype"]) {
			t++
		}
		if c.isScopes(p.Type()) {
			return false
		}
	}
	return v == 1 && t == 1 && c.returnsBlock(f) && c.r.inModule(f) && c.validates[f]
}

// checks: the call checks the value t against a type that is not the empty placeholder.
func (c *refCheck) checks(call *ssa.Call, t *things) bool {
	s := call.Call.StaticCallee()
	if s == nil || !c.isValidator(s) {
		return false
	}
	val, typ := false, false
	for i, a := range call.Call.Args {
		if t.vals[a] && types.Identical(s.Params[i].Type(), c.value) {
			val = true
		}
		if isPtrTo(s.Params[i].Type(), c.def["vxtype"]) {
			typ = !isEmptyPlaceholder(a)
		}
	}
	return val && typ
}

func isEmptyPlaceholder(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && strings.HasPrefix(g.Name(), "empty")
}

// stages: rules resolve and check.
func (c *refCheck) stages(from map[*ssa.Function]*ssa.Function) {
	parsed, _ := c.parsed(from)
	link, values := c.attributes(parsed)
	c.validates = map[*ssa.Function]bool{}
	for _, f := range c.r.funcs {
		if _, ok := from[f]; ok {
			for g := range c.r.reach(f) {
				if _, ok := c.verdict[g]; ok {
					c.validates[f] = true
				}
			}
		}
	}
	var roots []*ssa.Function
	var idx []int
	for _, f := range c.r.funcs {
		if _, ok := from[f]; !ok || !c.returnsBlock(f) {
			continue
		}
		for i, p := range f.Params {
			if s, ok := p.Type().(*types.Slice); ok && isPtrTo(s.Elem(), c.def["vxpackage"]) {
				roots = append(roots, f)
				idx = append(idx, i)
			}
		}
	}
	run := func(rule, what string, attrs []attribute, terminal func(*ssa.Call, *things) bool) {
		best, bestN := -1, -1
		var bestFail map[string]string
		covered := map[string]bool{}
		for k, f := range roots {
			v := c.newCoverage(terminal)
			n := 0
			fails := map[string]string{}
			for _, a := range attrs {
				v.why = map[string]string{}
				v.memo = map[string]int{}
				if v.param(f, idx[k], a.path) {
					n++
					covered[a.name] = true
				} else {
					fails[a.name] = deepestWhy(v.why)
				}
			}
			if n > bestN {
				best, bestN, bestFail = k, n, fails
			}
		}
		if best >= 0 {
			for f, by := range c.r.reach(roots[best]) {
				c.stage[f] = by
			}
		}
		for _, a := range attrs {
			c.x.oblige(rule)
			c.x.sample(rule, a.name+" via "+strings.Join(a.path, "."))
			if covered[a.name] {
				continue
			}
			pos, where := "-", "no function"
			if best >= 0 {
				pos, where = c.r.pos(roots[best].Pos()), fname(roots[best])
			}
			c.x.fail(rule, a.name, pos, "%s does not always %s the %s of every definition (%s)", where, what, a.name, bestFail[a.name])
		}
	}
	c.stage = map[*ssa.Function]*ssa.Function{}
	run("resolve", "look up", link, c.looksUp)
	var checked []attribute
	for _, a := range values {
		// code that is taken over as it is has no declared type
		if strings.Contains(a.name, "createvalue") || strings.Contains(a.name, "destroyvalue") {
			continue
		}
		checked = append(checked, a)
	}
	run("check", "check", checked, c.checks)
}

// deepestWhy is the explanation that belongs to the shortest remaining path.
func deepestWhy(why map[string]string) string {
	best, out := 1<<30, ""
	var keys []string
	for k := range why {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if n := strings.Count(k, "/"); n < best && why[k] != "" {
			best, out = n, why[k]
		}
	}
	if out == "" {
		return "it is never handed on"
	}
	return out
}

// valueKinds are the kinds of value parsing produces that hold names, and the type they hold.
func (c *refCheck) valueKinds(parsing map[*ssa.Function]*ssa.Function) map[string]string {
	out := map[string]string{}
	for _, f := range c.r.funcs {
		if _, ok := parsing[f]; !ok {
			continue
		}
		for _, b := range f.Blocks {
			codes := map[ssa.Value]string{}
			natives := map[ssa.Value]types.Type{}
			names := map[ssa.Value]bool{}
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isPtrTo(fa.X.Type(), c.value) {
					continue
				}
				switch fieldName(fa) {
				case "code":
					if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil {
						codes[fa.X] = constant.StringVal(k.Value)
					}
				case "native":
					if mi, ok := st.Val.(*ssa.MakeInterface); ok {
						natives[fa.X] = mi.X.Type()
					}
				case "name":
					names[fa.X] = true
				}
			}
			for x, code := range codes {
				t := natives[x]
				switch {
				case t == nil && names[x] && code == ":unknown":
					out[code] = "name"
				case t == nil:
				case isPtrTo(t, c.def["vxfunc"]):
					out[code] = "native:func"
				case types.Identical(t, c.def["vxarg"]):
					out[code] = "native:arg"
				case types.Identical(t, types.NewSlice(c.def["vxarg"])):
					out[code] = "native:arglist"
				case code == ":unknown":
					out[code] = "name"
				}
			}
		}
	}
	return out
}

// kinds: rule kinds, and rule compared.
func (c *refCheck) kinds(from map[*ssa.Function]*ssa.Function) {
	_, parsing := c.parsed(from)
	kinds := c.valueKinds(parsing)
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	c.x.analysed["kinds of value with names"] = len(names)
	linkers, validators := 0, 0
	for _, f := range c.r.funcs {
		if _, ok := from[f]; !ok {
			continue
		}
		if c.isLinker(f) && c.switchesOnKind(f) {
			linkers++
			for _, k := range names {
				var paths [][]string
				switch kinds[k] {
				case "name":
					paths = [][]string{{"name"}}
				case "native:arg":
					paths = [][]string{{"native:arg", "vxtype"}, {"native:arg", "value"}}
				case "native:arglist":
					paths = [][]string{{"native:arglist", "[]", "vxtype"}, {"native:arglist", "[]", "value"}}
				case "native:func":
					paths = [][]string{{"native:func", "name"}, {"native:func", "vxtype"}, {"native:func", "listarg", "[]", "vxtype"}, {"native:func", "listarg", "[]", "value"}}
				}
				c.kindPaths(f, k, paths, c.looksUp, "look up")
			}
		}
		if c.isValidator(f) && c.switchesOnKind(f) {
			validators++
			for _, k := range names {
				if kinds[k] == "native:func" {
					c.kindPaths(f, k, [][]string{{"native:func", "listarg", "[]", "value"}, {"native:func", "value"}}, c.checks, "check")
				}
			}
			c.compared(f)
		}
	}
	c.x.analysed["functions linking a value"] = linkers
	c.x.analysed["functions validating a value"] = validators
	if linkers == 0 || validators == 0 {
		c.x.fail("kinds", "value", "-", "no function links (%d) or validates (%d) a value by its kind", linkers, validators)
	}
}

func (c *refCheck) valueParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if types.Identical(p.Type(), c.value) {
			return i
		}
	}
	return -1
}

func (c *refCheck) valueThings(f *ssa.Function) *things {
	t := newThings()
	t.vals[f.Params[c.valueParam(f)]] = true
	return t.close(c.r)
}

func (c *refCheck) switchesOnKind(f *ssa.Function) bool {
	t := c.valueThings(f)
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if y, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if _, _, ok := fieldIsConst(y.Cond, true, "code", []*things{t}); ok {
				return true
			}
		}
	}
	return false
}

func (c *refCheck) kindPaths(f *ssa.Function, kind string, paths [][]string, terminal func(*ssa.Call, *things) bool, what string) {
	for _, path := range paths {
		c.x.oblige("kinds")
		v := c.newCoverage(terminal)
		v.kind = kind
		c.x.sample("kinds", fname(f)+" "+kind+" "+strings.Join(path, "."))
		if !v.param(f, c.valueParam(f), path) {
			c.x.fail("kinds", fname(f)+" "+kind+" "+strings.Join(path, "."), c.r.pos(f.Pos()),
				"%s does not always %s %s of a value of kind %s (%s)", fname(f), what, strings.Join(path[1:], " "), kind, deepestWhy(v.why))
		}
	}
}

// compared: no path through a validating function avoids every comparison.
func (c *refCheck) compared(f *ssa.Function) {
	c.x.oblige("compared")
	t := c.valueThings(f)
	var want ssa.Value
	for _, p := range f.Params {
		if isPtrTo(p.Type(), c.def["vxtype"]) {
			want = p
		}
	}
	fromWant := func(v ssa.Value) bool { return inCone(v, want, 0) }
	fromValue := func(v ssa.Value) bool {
		return coneHas(v, func(y ssa.Value) bool { return t.vals[y] || t.ptrs[y] }, map[ssa.Value]bool{})
	}
	skip := func(cond ssa.Value, truth bool) bool {
		if s, eq, ok := fieldIsConst(cond, truth, "code", []*things{t}); ok && eq && s == "" {
			return true
		}
		if s, eq, ok := fieldIsConst(cond, truth, "pkg", []*things{t}); ok && eq && s == ":native" {
			return true
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isString(bo.X.Type()) || truth != (bo.Op == token.EQL) {
			return false
		}
		_, cx := bo.X.(*ssa.Const)
		_, cy := bo.Y.(*ssa.Const)
		switch {
		case cy:
			return fromWant(bo.X) && !fromValue(bo.X)
		case cx:
			return fromWant(bo.Y) && !fromValue(bo.Y)
		}
		// the same name is the same type
		return fromWant(bo.X) && fromValue(bo.Y) || fromWant(bo.Y) && fromValue(bo.X)
	}
	type state struct {
		b     *ssa.BasicBlock
		known string
	}
	seen := map[state]bool{}
	ids := factKeys{}
	var walk func(b *ssa.BasicBlock, known map[ssa.Value]bool) token.Pos
	enter := func(s, p *ssa.BasicBlock, known map[ssa.Value]bool) token.Pos {
		next := enterBlock(s, p, known)
		st := state{s, ids.of(next)}
		if seen[st] || len(seen) > 20000 {
			return token.NoPos
		}
		seen[st] = true
		return walk(s, next)
	}
	walk = func(b *ssa.BasicBlock, known map[ssa.Value]bool) token.Pos {
		for _, in := range b.Instrs {
			if c.addsError(in) {
				return token.NoPos
			}
			switch y := in.(type) {
			case *ssa.Call:
				if s := y.Call.StaticCallee(); s != nil {
					if _, ok := c.verdict[s]; ok {
						return token.NoPos
					}
					if c.isValidator(s) && s != f {
						return token.NoPos
					}
				}
			case *ssa.UnOp:
				if t, ok := known[y.X]; ok && y.Op == token.NOT {
					known[y] = !t
				}
			case *ssa.Return:
				return y.Pos()
			case *ssa.If:
				for k, s := range b.Succs {
					if t, ok := known[y.Cond]; ok && t != (k == 0) || skip(y.Cond, k == 0) {
						continue
					}
					branch := map[ssa.Value]bool{}
					for v, t := range known {
						branch[v] = t
					}
					learn(branch, y.Cond, k == 0)
					if p := enter(s, b, branch); p != token.NoPos {
						if len(branch) < 12 && y.Cond.Pos().IsValid() {
							return y.Cond.Pos()
						}
						return p
					}
				}
				return token.NoPos
			}
		}
		for _, s := range b.Succs {
			if p := enter(s, b, known); p != token.NoPos {
				return p
			}
		}
		return token.NoPos
	}
	if p := walk(f.Blocks[0], map[ssa.Value]bool{}); p != token.NoPos {
		c.x.fail("compared", fname(f), c.r.pos(p), "%s can finish without comparing the value with its type and without an error", fname(f))
	}
}

// missing: rule missing.
func (c *refCheck) missing(from map[*ssa.Function]*ssa.Function) {
	for _, f := range c.r.funcs {
		if _, ok := from[f]; !ok {
			continue
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				s := call.Call.StaticCallee()
				names := c.lookups[s]
				if s == nil || names == nil || c.localLookup(s) {
					continue
				}
				c.x.oblige("missing")
				var args []string
				for _, k := range names {
					args = append(args, describe(call.Call.Args[k]))
				}
				key := fname(f) + " " + s.Name() + " " + strings.Join(args, " ")
				c.x.sample("missing", key)
				if p, why := c.follow(call, b, i, 1, false); why != "" {
					c.x.fail("missing", key, c.r.pos(call.Pos()), "%s goes on without an error when %s finds nothing (%s at %s)", fname(f), s.Name(), why, c.r.pos(p))
				}
			}
		}
	}
}

// describe names a value by the attribute it is loaded from, for keys that do not depend on lines.
func describe(v ssa.Value) string {
	switch y := v.(type) {
	case *ssa.Const:
		return y.Value.String()
	case *ssa.UnOp:
		return describe(y.X)
	case *ssa.FieldAddr:
		return describe(y.X) + "." + fieldName(y)
	case *ssa.Field:
		return describe(y.X) + "." + fieldVar(y.X.Type(), y.Field).Name()
	case *ssa.Parameter:
		return y.Name()
	case *ssa.Phi:
		return y.Comment
	case *ssa.Alloc:
		return y.Comment
	case *ssa.Call:
		return calleeName(y)
	}
	return ""
}

// verdicts: rule verdict.
func (c *refCheck) verdicts(from map[*ssa.Function]*ssa.Function) {
	for _, f := range c.r.funcs {
		if _, ok := c.stage[f]; !ok {
			continue
		}
		// inferring a generic type is no check of a value
		if _, ok := c.verdict[f]; !ok && c.lookups[f] == nil && c.valueParam(f) < 0 {
			continue
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				s := call.Call.StaticCallee()
				res, ok := c.verdict[s]
				if s == nil || !ok {
					continue
				}
				c.x.oblige("verdict")
				key := fname(f) + " " + s.Name()
				c.x.sample("verdict", key)
				if p, why := c.follow(call, b, i, res, true); why != "" {
					c.x.fail("verdict", key, c.r.pos(call.Pos()), "%s goes on as if %s had accepted (%s at %s)", fname(f), s.Name(), why, c.r.pos(p))
				}
				if l := c.lastWins(f, call, res); l != nil {
					c.x.fail("verdict", key+" last", c.r.pos(call.Pos()), "in the loop at %s of %s only the last result of %s counts", c.r.pos(l.pos()), fname(f), s.Name())
				}
			}
		}
	}
}

func resultOf(call *ssa.Call, i int) ssa.Value {
	if _, ok := call.Type().(*types.Tuple); !ok {
		return call
	}
	for _, ref := range *call.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
			return ex
		}
	}
	return nil
}

// lastWins: the result replaces what earlier iterations found, and no iteration ends the loop.
func (c *refCheck) lastWins(f *ssa.Function, call *ssa.Call, res int) *loop {
	v := resultOf(call, res)
	if v == nil {
		return nil
	}
	for _, l := range c.loopsOf(f) {
		if !l.body[call.Block()] {
			continue
		}
		exits := false
		for b := range l.body {
			if b != l.head {
				for _, s := range b.Succs {
					if !l.body[s] {
						exits = true
					}
				}
			}
		}
		if exits {
			continue
		}
		for _, in := range l.head.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range phi.Edges {
				if l.body[l.head.Preds[i]] && e == v {
					return l
				}
			}
		}
	}
	return nil
}

// follow explores what happens after the call when its boolean result is false. It returns a position and
// an explanation when the function (or the iteration) can end without anything being done about it.
func (c *refCheck) follow(call *ssa.Call, b *ssa.BasicBlock, idx, res int, verdict bool) (token.Pos, string) {
	ok := resultOf(call, res)
	if ok == nil {
		return call.Pos(), "its result is not used"
	}
	f := b.Parent()
	var around []*loop
	for _, l := range c.loopsOf(f) {
		if l.body[b] {
			around = append(around, l)
		}
	}
	var leaves map[string]bool
	if !verdict {
		leaves = c.nameLeaves(call)
	}
	type state struct {
		b     *ssa.BasicBlock
		known string
	}
	seen := map[state]bool{}
	ids := factKeys{}
	var walk func(b *ssa.BasicBlock, i int, known map[ssa.Value]bool) (token.Pos, string)
	enter := func(s, p *ssa.BasicBlock, known map[ssa.Value]bool) (token.Pos, string) {
		for _, l := range around {
			if s == l.head && l.body[p] && !verdict {
				return l.pos(), "the next iteration of the loop starts"
			}
		}
		next := enterBlock(s, p, known)
		st := state{s, ids.of(next)}
		if seen[st] || len(seen) > 20000 {
			return token.NoPos, ""
		}
		seen[st] = true
		return walk(s, 0, next)
	}
	walk = func(b *ssa.BasicBlock, i int, known map[ssa.Value]bool) (token.Pos, string) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if c.addsError(in) {
				return token.NoPos, ""
			}
			switch y := in.(type) {
			case *ssa.Call:
				s := y.Call.StaticCallee()
				if s == nil {
					continue
				}
				if verdict {
					if _, ok := c.verdict[s]; ok {
						return token.NoPos, ""
					}
				} else if c.lookups[s] != nil && !c.localLookup(s) {
					for k := range c.nameLeaves(y) {
						if leaves[k] {
							return token.NoPos, ""
						}
					}
				}
			case *ssa.UnOp:
				if t, ok := known[y.X]; ok && y.Op == token.NOT {
					known[y] = !t
				}
			case *ssa.Return:
				for _, rv := range y.Results {
					if t, ok := known[rv]; ok && !t {
						return token.NoPos, ""
					}
					if k, ok := rv.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
						return token.NoPos, ""
					}
				}
				return y.Pos(), "it returns"
			case *ssa.Panic:
				return token.NoPos, ""
			case *ssa.If:
				for k, s := range b.Succs {
					if t, ok := known[y.Cond]; ok && t != (k == 0) {
						continue
					}
					if c.accepted(y.Cond, k == 0, verdict) {
						continue
					}
					branch := map[ssa.Value]bool{}
					for v, t := range known {
						branch[v] = t
					}
					learn(branch, y.Cond, k == 0)
					if p, why := enter(s, b, branch); why != "" {
						return p, why
					}
				}
				return token.NoPos, ""
			}
		}
		for _, s := range b.Succs {
			if p, why := enter(s, b, known); why != "" {
				return p, why
			}
		}
		return token.NoPos, ""
	}
	known := dominatingFacts(b)
	known[ok] = false
	return walk(b, idx+1, known)
}

// dominatingFacts are the conditions that are decided wherever b is reached.
func dominatingFacts(b *ssa.BasicBlock) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for d := b; d != nil && d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		y, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 || d.Preds[0] != p || p.Succs[0] == p.Succs[1] {
			continue
		}
		learn(out, y.Cond, p.Succs[0] == d)
	}
	for d := b; d != nil; d = d.Idom() {
		for _, in := range d.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if t, ok := neverChanges(phi); ok {
				out[phi] = t
			}
		}
	}
	return out
}

// neverChanges: a flag of a loop that ends as soon as the flag changes has its first value in the loop.
func neverChanges(phi *ssa.Phi) (bool, bool) {
	if !isBool(phi.Type()) {
		return false, false
	}
	h := phi.Block()
	first, have := false, false
	for i, e := range phi.Edges {
		if h.Dominates(h.Preds[i]) {
			continue
		}
		k, ok := e.(*ssa.Const)
		if !ok || k.Value == nil || have && constant.BoolVal(k.Value) != first {
			return false, false
		}
		first, have = constant.BoolVal(k.Value), true
	}
	loops := false
	for i, e := range phi.Edges {
		p := h.Preds[i]
		if !h.Dominates(p) {
			continue
		}
		loops = true
		if e == phi {
			continue
		}
		y, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] || y.Cond != e || (p.Succs[0] == h) != first {
			return false, false
		}
	}
	return first, have && loops
}

func learn(known map[ssa.Value]bool, cond ssa.Value, truth bool) {
	if _, ok := cond.(*ssa.Const); ok {
		return
	}
	known[cond] = truth
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		learn(known, u.X, !truth)
	}
}

// invariant: the condition has the same value whenever it is computed in one call.
func invariant(v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Parameter, *ssa.Const:
		return true
	case *ssa.BinOp:
		return invariant(y.X) && invariant(y.Y)
	case *ssa.UnOp:
		_, ok := y.X.(*ssa.Global)
		return ok || y.Op == token.NOT && invariant(y.X)
	}
	return false
}

// enterBlock gives the known conditions after going from p to s.
func enterBlock(s, p *ssa.BasicBlock, known map[ssa.Value]bool) map[ssa.Value]bool {
	next := map[ssa.Value]bool{}
	for v, t := range known {
		next[v] = t
	}
	pi := predIndex(s, p)
	for _, in := range s.Instrs {
		phi, isphi := in.(*ssa.Phi)
		if !isphi {
			break
		}
		if !isBool(phi.Type()) {
			continue
		}
		delete(next, phi)
		e := phi.Edges[pi]
		if t, ok := known[e]; ok {
			next[phi] = t
		} else if k, ok := e.(*ssa.Const); ok && k.Value != nil {
			next[phi] = constant.BoolVal(k.Value)
		}
	}
	for _, in := range s.Instrs {
		v, ok := in.(ssa.Value)
		if _, phi := in.(*ssa.Phi); ok && !phi {
			if _, has := next[v]; has && !invariant(v) {
				delete(next, v)
			}
		}
	}
	return next
}

// factKeys makes comparable keys of sets of known conditions.
type factKeys map[ssa.Value]int

func (ids factKeys) of(k map[ssa.Value]bool) string {
	var s []string
	for v, t := range k {
		if ids[v] == 0 {
			ids[v] = len(ids) + 1
		}
		s = append(s, fmt.Sprintf("%d=%v", ids[v], t))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// nameLeaves are the attributes and parameters a lookup's name is made of.
func (c *refCheck) nameLeaves(call *ssa.Call) map[string]bool {
	out := map[string]bool{}
	for _, i := range c.lookups[call.Call.StaticCallee()] {
		coneHas(call.Call.Args[i], func(y ssa.Value) bool {
			switch z := y.(type) {
			case *ssa.Parameter:
				out["param "+z.Name()] = true
			case *ssa.FieldAddr:
				out[fmt.Sprintf("%p.%s", z.X, fieldName(z))] = true
				return false
			}
			return false
		}, map[ssa.Value]bool{})
	}
	return out
}

// accepted: the branch means that an error is there already, that there is nothing to compare, or that the
// definition is the placeholder for native code.
func (c *refCheck) accepted(cond ssa.Value, truth bool, verdict bool) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return c.accepted(u.X, !truth, verdict)
	}
	if call, ok := cond.(*ssa.Call); ok && truth {
		if s := call.Call.StaticCallee(); s != nil && len(s.Params) == 1 && isPtrTo(s.Params[0].Type(), c.block) {
			return true
		}
	}
	if fieldOfLoad(cond) == "iserror" && truth {
		return true
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || truth != (bo.Op == token.EQL) {
		return false
	}
	if !isString(bo.X.Type()) {
		return false
	}
	for _, k := range []ssa.Value{bo.X, bo.Y} {
		if kc, ok := k.(*ssa.Const); ok && kc.Value != nil && kc.Value.Kind() == constant.String {
			s := constant.StringVal(kc.Value)
			if verdict {
				// nothing to compare, or a type that accepts anything
				return s == "" || s == "/" || s == "vx/core/any"
			}
			return s == "native"
		}
	}
	// equal names are a comparison of their own
	return verdict
}

// forbid: rule forbid.
func (c *refCheck) forbid(from map[*ssa.Function]*ssa.Function) {
	st := c.def["vxtype"].Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		field := st.Field(i)
		if !strings.HasPrefix(field.Name(), "disallow") {
			continue
		}
		if k, list := c.refKind(field.Type()); k == "" || !list {
			continue
		}
		c.x.oblige("forbid")
		found, why := false, "no comparison walks it"
		for _, f := range c.r.funcs {
			if _, ok := c.verdict[f]; !ok {
				continue
			}
			v := c.newCoverage(nil)
			for _, p := range f.Params {
				if !isPtrTo(p.Type(), c.def["vxtype"]) {
					continue
				}
				t := newThings()
				t.vals[p] = true
				ft := t.close(c.r).field(c.r, field.Name())
				for _, l := range c.loopsOf(f) {
					el, complete := ft.elements(c.r, l)
					if !complete {
						continue
					}
					if w := v.leavesEarly(l); w != "" {
						why = "the loop at " + c.r.pos(l.pos()) + " " + w
						continue
					}
					if c.matchIsError(l, el) {
						found = true
					} else {
						why = "a match in the loop at " + c.r.pos(l.pos()) + " is no error"
					}
				}
			}
		}
		if !found {
			c.x.fail("forbid", field.Name(), "-", "the attribute %s of a type has no effect: %s", field.Name(), why)
		}
	}
}

// matchIsError: the loop compares the element with something, and equality adds an error on every path.
func (c *refCheck) matchIsError(l *loop, el *things) bool {
	for b := range l.body {
		if len(b.Instrs) == 0 {
			continue
		}
		y, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if !coneHas(y.Cond, func(v ssa.Value) bool { return el.vals[v] || el.ptrs[v] }, map[ssa.Value]bool{}) {
			continue
		}
		for _, s := range b.Succs {
			seen := map[*ssa.BasicBlock]bool{}
			var must func(b *ssa.BasicBlock) bool
			must = func(b *ssa.BasicBlock) bool {
				if b == l.head || !l.body[b] {
					return false
				}
				if seen[b] {
					return true
				}
				seen[b] = true
				for _, in := range b.Instrs {
					if c.addsError(in) {
						return true
					}
				}
				for _, n := range b.Succs {
					if !must(n) {
						return false
					}
				}
				return len(b.Succs) > 0
			}
			if must(s) {
				return true
			}
		}
	}
	return false
}
