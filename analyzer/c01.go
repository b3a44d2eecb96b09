package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{
		id:        "C01",
		technique: "SSA must-flow (ownership) analysis of diagnostics and OS errors",
		assumptions: []string{
			"a diagnostic that is contained in the block a function returns (or in the block it was handed) is owned by the caller, which is checked in turn",
			"existence probes (os.Stat, os.Lstat) return an error as their answer, not as a failure",
		},
		run: checkC01,
	})
}

// isConstructor recognises functions that return a fresh, empty object: no calls into the module other
// than constructors, no diagnostics stored.
func (e *flowEngine) isConstructor(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					switch fieldName(fa) {
					case "listmsg", "listmsgblock", e.errField:
						return false
					}
				}
			case *ssa.Return:
				for _, v := range x.Results {
					switch y := v.(type) {
					case *ssa.Alloc:
						if !y.Heap {
							return false
						}
					case *ssa.Call:
						if !e.isConstructor(y.Call.StaticCallee()) || y.Call.StaticCallee() == f {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// osErrorSource says whether an error result of the callee is a failure of the outside world.
func osErrorSource(c ssa.CallInstruction) bool {
	name := calleeName(c)
	for _, p := range []string{"os.Stat", "os.Lstat", "path/filepath.Abs", "os.Getwd"} {
		if name == p {
			return false
		}
	}
	for _, p := range []string{"os.", "(*os.File).", "io.", "bufio.", "(*bufio.", "path/filepath.", "io/ioutil.", "net/http.", "github.com/fsnotify/", "(*github.com/fsnotify/"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func checkC01(r *repo, x *result) {
	x.rule("merge", "every *vxmsgblock a call returns is, on every path to a return of the caller, contained in the block the caller returns or was handed, unless its error flag is known to be clear")
	x.rule("message", "every message object created is added to a block that reaches the caller")
	x.rule("oserror", "every error returned by os, io, bufio, filepath and http calls is returned or added to a block on the path where it is not nil")
	x.rule("flag", "adding a block or message copies its error state into the receiving block; the error flag is only ever set, the message lists only ever grow")
	x.rule("severity", "diagnostics are added as errors, never only as information or warnings, and never only printed")
	x.rule("text", "a message constructor puts every argument into the text of the message")
	x.rule("report", "the final report prints every message of every nested block, and the process exit status reflects it")

	e := newFlowEngine(r)
	if e.blockPtr == nil || e.msgPtr == nil {
		x.fail("merge", "vxmsgblock", "-", "the diagnostic block type is gone")
		return
	}
	stage := r.reach(r.spkgs[r.main].Func("main"))
	for _, f := range r.funcs {
		if isReporter(r, e, f) {
			e.reporters[f] = true
		}
	}
	x.analysed["functions"] = len(r.funcs)
	x.analysed["functions reachable from main"] = len(stage)
	for _, f := range r.funcs {
		if _, ok := stage[f]; !ok || f == r.spkgs[r.main].Func("main") || f.Pkg != nil && f.Pkg.Pkg == r.core.Types {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch c := in.(type) {
				case *ssa.Call:
					checkCallResults(r, x, e, f, c)
					checkWalkFunc(r, x, e, c)
				case *ssa.Defer:
					if osErrorSource(c) && resultIndex(c.Common().Signature(), e.errType) >= 0 {
						if isWriteClose(c) {
							x.oblige("oserror")
							x.fail("oserror", fname(f)+" defers "+calleeName(c), r.pos(c.Pos()), "the error of a deferred %s on a written file is ignored", calleeName(c))
						}
					}
				}
			}
		}
	}
	checkFlags(r, x, e)
	checkText(r, x, e)
	checkSeverity(r, x, e, stage)
	checkReport(r, x, e)
	x.atLeast("merge", 200)
	x.atLeast("message", 40)
	x.atLeast("oserror", 8)
	x.atLeast("flag", 6)
	x.atLeast("report", 2)
	x.atLeast("text", 2)
}

// checkWalkFunc: a function handed to a directory walk is given the error of reading an entry and has to
// pass it on.
func checkWalkFunc(r *repo, x *result, e *flowEngine, c *ssa.Call) {
	if !strings.HasPrefix(calleeName(c), "path/filepath.Walk") {
		return
	}
	for _, a := range c.Call.Args {
		for _, f := range funcValues(a, 0) {
			checkErrorParam(r, x, e, f)
		}
	}
}

// funcValues resolves a function value to the functions it can be.
func funcValues(v ssa.Value, depth int) []*ssa.Function {
	if depth > 6 {
		return nil
	}
	switch y := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{y}
	case *ssa.MakeClosure:
		return funcValues(y.Fn, depth+1)
	case *ssa.ChangeType:
		return funcValues(y.X, depth+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, ed := range y.Edges {
			out = append(out, funcValues(ed, depth+1)...)
		}
		return out
	}
	return nil
}

func checkErrorParam(r *repo, x *result, e *flowEngine, f *ssa.Function) {
	for i, p := range f.Params {
		if !types.Identical(p.Type(), e.errType) {
			continue
		}
		x.oblige("oserror")
		x.sample("oserror", fname(f)+" is given the error of a directory entry")
		if sum := e.summary(f, i, flowErr); !sum.done && !sum.results[0] {
			x.fail("oserror", fname(f)+" walk error", r.pos(f.Pos()), "the error of reading a directory entry is ignored")
		}
	}
}

func resultIndex(sig *types.Signature, t types.Type) int {
	for i := 0; i < sig.Results().Len(); i++ {
		if types.Identical(sig.Results().At(i).Type(), t) {
			return i
		}
	}
	return -1
}

func checkCallResults(r *repo, x *result, e *flowEngine, f *ssa.Function, c *ssa.Call) {
	sig := c.Call.Signature()
	callee := c.Call.StaticCallee()
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		var kind flowKind
		var rule, what string
		switch {
		case types.Identical(t, e.blockPtr):
			if e.isConstructor(callee) {
				continue
			}
			kind, rule, what = flowBlock, "merge", "diagnostics returned by "
		case types.Identical(t, e.msgPtr):
			kind, rule, what = flowMsg, "message", "message created by "
		case types.Identical(t, e.errType):
			if callee != nil && r.inModule(callee) {
				if !returnsOsError(r, callee) {
					continue
				}
			} else if !osErrorSource(c) {
				continue
			}
			if isReadClose(c) || isFileClose(c) && failsAnyway(c) {
				continue
			}
			kind, rule, what = flowErr, "oserror", "error returned by "
		default:
			continue
		}
		x.oblige(rule)
		name := calleeName(c)
		if callee != nil && r.inModule(callee) {
			name = fname(callee)
		}
		key := fname(f) + " <- " + name
		x.sample(rule, key+" at "+r.pos(c.Pos()))
		var start ssa.Instruction = c
		vals := []ssa.Value{c}
		if sig.Results().Len() > 1 {
			vals = nil
			for _, ref := range *c.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
					vals = append(vals, ex)
					start = ex
				}
			}
			if kind == flowBlock && (isProbe(e, f, c) || reportedBySibling(r, e, f, c, i)) {
				continue
			}
			if len(vals) == 0 {
				x.fail(rule, key, r.pos(c.Pos()), "%s%s are ignored", what, name)
				continue
			}
		} else if len(*c.Referrers()) == 0 && e.returnsParamOf(c) < 0 {
			x.fail(rule, key, r.pos(c.Pos()), "%s%s are ignored", what, name)
			continue
		}
		bad := false
		if e.returnsParamOf(c) >= 0 {
			// the result is the caller's own block, updated in place: it is the same object as the argument
			vals = append(vals, c.Call.Args[e.returnsParamOf(c)])
		}
		e.closing = kind == flowErr && isFileClose(c)
		losses := e.run(f, start, vals, kind, func(ret *ssa.Return, h holdset) {
			if bad {
				return
			}
			for _, v := range ret.Results {
				if h[v] {
					return
				}
			}
			for v := range h {
				switch p := v.(type) {
				case *ssa.Parameter:
					if kind == flowErr || types.Identical(p.Type(), e.blockPtr) || !types.Identical(p.Type(), e.msgPtr) {
						return
					}
				case *ssa.FreeVar, *ssa.Global:
					return
				}
			}
			if kind == flowErr && printedOnly(f, h) {
				return
			}
			bad = true
			x.fail(rule, key, r.pos(c.Pos()), "%s%s do not reach the result returned at %s", what, name, r.pos(retPos(ret)))
		})
		for _, l := range losses {
			x.fail(rule, key, r.pos(c.Pos()), "%s%s: %s", what, name, l.why)
		}
	}
}

// isProbe: the call answers a yes/no question, the answer is used, and the asking function itself only
// answers such a question, so the explanation has nowhere to go and is not a diagnostic of this stage.
func isProbe(e *flowEngine, f *ssa.Function, c *ssa.Call) bool {
	if f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
		return false
	}
	i := resultIndex(c.Call.Signature(), types.Typ[types.Bool])
	if i < 0 {
		return false
	}
	for _, ref := range *c.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i && len(*ex.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// reportedBySibling: f can carry no diagnostics, and the same call on the same attribute of the same kind
// of definition is made elsewhere by a function that can (and is checked here in turn).
func reportedBySibling(r *repo, e *flowEngine, f *ssa.Function, c *ssa.Call, idx int) bool {
	callee := c.Call.StaticCallee()
	if callee == nil || resultIndex(f.Signature, e.blockPtr) >= 0 {
		return false
	}
	attr := func(c ssa.CallInstruction) string {
		for _, a := range c.Common().Args {
			if u, ok := a.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					return fa.X.Type().String() + "." + fieldName(fa)
				}
			}
		}
		return ""
	}
	want := attr(c)
	if want == "" {
		return false
	}
	for _, o := range r.callers(callee) {
		oc, ok := o.(*ssa.Call)
		if !ok || oc == c || attr(oc) != want || resultIndex(oc.Parent().Signature, e.blockPtr) < 0 {
			continue
		}
		for _, ref := range *oc.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index == idx {
				return true
			}
		}
	}
	return false
}

// failsAnyway: after this call every return hands out an error that is known not to be nil.
func failsAnyway(c *ssa.Call) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				if knownNotNil(b, storedInBlock(v, b)) {
					return true
				}
			}
			return false
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return len(b.Succs) > 0
	}
	return walk(c.Block())
}

// storedInBlock resolves a load of a local variable to what the same block last stored into it.
func storedInBlock(v ssa.Value, b *ssa.BasicBlock) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.Block() != b {
		return v
	}
	out := v
	for _, in := range b.Instrs {
		if in == ssa.Instruction(u) {
			break
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == u.X {
			out = st.Val
		}
	}
	return out
}

// knownNotNil: b is only reached through the edge of a test that says v != nil.
func knownNotNil(b *ssa.BasicBlock, v ssa.Value) bool {
	if !types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
		return false
	}
	for d := b; d != nil; d = d.Idom() {
		g := guardOf(d)
		if g == nil {
			continue
		}
		bo, ok := g.cond.(*ssa.BinOp)
		if !ok || bo.X != v && bo.Y != v {
			continue
		}
		if bo.Op == token.NEQ && g.truth || bo.Op == token.EQL && !g.truth {
			return true
		}
	}
	return false
}

func (e *flowEngine) returnsParamOf(c *ssa.Call) int {
	s := c.Call.StaticCallee()
	if s == nil || s.Blocks == nil || !e.r.inModule(s) || s.Signature.Results().Len() != 1 {
		return -1
	}
	j := e.returnsParam(s)
	if j >= len(c.Call.Args) {
		return -1
	}
	return j
}

func retPos(ret *ssa.Return) token.Pos {
	if ret.Pos().IsValid() {
		return ret.Pos()
	}
	return ret.Parent().Syntax().End()
}

// printedOnly accepts functions without results that can carry a failure: what the log itself cannot
// write can only be printed.
func printedOnly(f *ssa.Function, h holdset) bool {
	if f.Signature.Results().Len() > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				n := calleeName(c)
				if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log.") {
					for _, a := range c.Call.Args {
						if h[a] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func returnsOsError(r *repo, f *ssa.Function) bool {
	// an error of a module function counts when an os error can reach its result
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] || f.Blocks == nil || !r.inModule(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if osErrorSource(c) && resultIndex(c.Common().Signature(), types.Universe.Lookup("error").Type()) >= 0 {
						return true
					}
					if s := c.Common().StaticCallee(); s != nil && resultIndex(s.Signature, types.Universe.Lookup("error").Type()) >= 0 && walk(s) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// openedBy finds the calls a file value comes from.
func openedBy(v ssa.Value, depth int) []string {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return []string{calleeName(c)}
		}
	case *ssa.Call:
		return []string{calleeName(x)}
	case *ssa.Phi:
		var out []string
		for _, ed := range x.Edges {
			out = append(out, openedBy(ed, depth+1)...)
		}
		return out
	case *ssa.UnOp:
		if x.Op == token.MUL {
			var out []string
			if refs := x.X.Referrers(); refs != nil {
				for _, ref := range *refs {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == x.X {
						out = append(out, openedBy(st.Val, depth+1)...)
					}
				}
			}
			return out
		}
	}
	return nil
}

func isFileClose(c ssa.CallInstruction) bool { return calleeName(c) == "(*os.File).Close" }

// isReadClose: closing a file that was only opened for reading cannot lose data; closing after a
// failed write reports the write error instead.
func isReadClose(c ssa.CallInstruction) bool {
	if !isFileClose(c) {
		return calleeName(c) == "(*github.com/fsnotify/fsnotify.Watcher).Close"
	}
	src := openedBy(c.Common().Args[0], 0)
	for _, s := range src {
		if s != "os.Open" {
			return false
		}
	}
	return len(src) > 0
}

func isWriteClose(c ssa.CallInstruction) bool {
	return isFileClose(c) && !isReadClose(c)
}

func isReporter(r *repo, e *flowEngine, f *ssa.Function) bool {
	if f.Signature.Results().Len() > 0 || len(f.Params) == 0 {
		return false
	}
	has := false
	for _, p := range f.Params {
		if types.Identical(p.Type(), e.blockPtr) {
			has = true
		}
	}
	if !has {
		return false
	}
	for g := range r.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(calleeName(c), "fmt.Print") {
					return true
				}
			}
		}
	}
	return false
}

// checkFlags examines every place that changes a diagnostic block.
func checkFlags(r *repo, x *result, e *flowEngine) {
	for _, f := range r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type(), e.blockPtr) {
					continue
				}
				name := fieldName(fa)
				switch name {
				case e.errField, "iswarning":
					x.oblige("flag")
					if !flagMonotone(st.Val, fa, name, 0) {
						x.fail("flag", fname(f)+" stores "+name, r.pos(st.Pos()), "%s of a diagnostic block may be cleared here", name)
					}
				case "listmsg", "listmsgblock":
					x.oblige("flag")
					if !growsOnly(st.Val, fa, name) {
						x.fail("flag", fname(f)+" stores "+name, r.pos(st.Pos()), "%s of a diagnostic block is replaced instead of appended to", name)
						continue
					}
					// what is appended
					elems := appended(st.Val)
					for _, el := range elems {
						if types.Identical(el.Type(), e.blockPtr) {
							x.oblige("flag")
							if !flagFollows(e, f, fa.X, el, st) {
								x.fail("flag", fname(f)+" adds a block", r.pos(st.Pos()), "a block is added without copying its error flag to the receiving block")
							}
						}
						if types.Identical(el.Type(), e.msgPtr) && marksError(f, el) {
							x.oblige("flag")
							if !setsTrueWith(e, f, fa.X, st) {
								x.fail("flag", fname(f)+" adds an error message", r.pos(st.Pos()), "an error message is added without setting the error flag of the block")
							}
						}
					}
				}
			}
		}
	}
	// the two merge entry points must make the caller's block hold what is added
	for _, f := range r.funcs {
		if f.Pkg == nil || f.Pkg.Pkg != r.vx.Types || len(f.Params) != 2 {
			continue
		}
		if !types.Identical(f.Params[0].Type(), e.blockPtr) || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), e.blockPtr) {
			continue
		}
		var kind flowKind
		switch {
		case types.Identical(f.Params[1].Type(), e.blockPtr):
			kind = flowBlock
		case types.Identical(f.Params[1].Type(), e.msgPtr):
			kind = flowMsg
		case types.Identical(f.Params[1].Type(), e.errType):
			kind = flowErr
		default:
			continue
		}
		x.oblige("flag")
		sum := e.summary(f, 1, kind)
		if !sum.done && !sum.results[0] && !sum.params[0] {
			x.fail("flag", fname(f)+" loses its argument", r.pos(f.Pos()), "%s does not put its second argument into the block it returns on every path", fname(f))
		}
		sum = e.summary(f, 0, flowBlock)
		if !sum.done && !sum.results[0] {
			x.fail("flag", fname(f)+" loses the block", r.pos(f.Pos()), "%s does not return the block it was given on every path", fname(f))
		}
	}
}

// flagMonotone: the stored value is true, or the old value or-ed with something, or another flag stored
// under its own test.
func flagMonotone(v ssa.Value, fa *ssa.FieldAddr, field string, depth int) bool {
	if depth > 5 {
		return false
	}
	switch c := v.(type) {
	case *ssa.Const:
		return c.Value != nil && c.Value.String() == "true"
	case *ssa.Phi:
		// a || b is a phi of true and b; at least the true edge must come from testing the old flag
		sawTrue := false
		for _, ed := range c.Edges {
			if k, ok := ed.(*ssa.Const); ok {
				if k.Value == nil || k.Value.String() != "true" {
					return false
				}
				sawTrue = true
			}
		}
		if !sawTrue {
			return false
		}
		for i, ed := range c.Edges {
			if _, ok := ed.(*ssa.Const); ok {
				p := c.Block().Preds[i]
				if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
					if fieldOfLoad(iff.Cond) == field && sameObject(loadBase(iff.Cond), fa.X) {
						return true
					}
				}
			} else if fieldOfLoad(ed) == field && sameObject(loadBase(ed), fa.X) {
				return true
			}
		}
		return false
	case *ssa.UnOp:
		return fieldOfLoad(v) == field && sameObject(loadBase(v), fa.X)
	}
	return false
}

func loadBase(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa.X
		}
	}
	return nil
}

func sameObject(a, b ssa.Value) bool { return a != nil && a == b }

func growsOnly(v ssa.Value, fa *ssa.FieldAddr, field string) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return false
	}
	return fieldOfLoad(c.Call.Args[0]) == field && sameObject(loadBase(c.Call.Args[0]), fa.X)
}

// appended lists the elements an append call adds.
func appended(v ssa.Value) []ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) < 2 {
		return nil
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	var out []ssa.Value
	if al, ok := sl.X.(*ssa.Alloc); ok {
		for _, ref := range *al.Referrers() {
			if ia, ok := ref.(*ssa.IndexAddr); ok {
				for _, ref2 := range *ia.Referrers() {
					if st, ok := ref2.(*ssa.Store); ok {
						out = append(out, st.Val)
					}
				}
			}
		}
	}
	return out
}

// flagFollows: on every path of f on which added is put into into, added.iserror implies that
// into.iserror has been set: either the store is guarded by exactly that test, or unconditional.
func flagFollows(e *flowEngine, f *ssa.Function, into, added ssa.Value, at *ssa.Store) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa) != e.errField || !sameObject(fa.X, into) {
				continue
			}
			// unconditional with the adding store
			if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "true" {
				if sameOrDominates(b, at.Block()) || postDominates(f, b, at.Block()) {
					return true
				}
				// guarded by added.iserror
				if g := guardOf(b); g != nil {
					if isErrTest(e, g.cond, added) && g.truth && (g.block.Dominates(at.Block()) || postDominates(f, g.block, at.Block())) {
						return true
					}
				}
			}
			// into.iserror = into.iserror || added.iserror
			if phi, ok := st.Val.(*ssa.Phi); ok {
				uses := false
				for i, ed := range phi.Edges {
					if isErrTest(e, ed, added) {
						uses = true
					}
					p := phi.Block().Preds[i]
					if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && isErrTest(e, iff.Cond, added) {
						uses = true
					}
				}
				if uses && (sameOrDominates(b, at.Block()) || postDominates(f, b, at.Block())) {
					return true
				}
			}
		}
	}
	return false
}

func isErrTest(e *flowEngine, v, obj ssa.Value) bool {
	if fieldOfLoad(v) == e.errField && sameObject(loadBase(v), obj) {
		return true
	}
	if c, ok := v.(*ssa.Call); ok {
		if s := c.Call.StaticCallee(); s != nil && e.errTests[s] && c.Call.Args[0] == obj {
			return true
		}
	}
	return false
}

type guard struct {
	block *ssa.BasicBlock
	cond  ssa.Value
	truth bool
}

// guardOf returns the condition that alone decides whether b runs, looking at its single predecessor.
func guardOf(b *ssa.BasicBlock) *guard {
	if len(b.Preds) != 1 {
		return nil
	}
	p := b.Preds[0]
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	g := &guard{p, iff.Cond, p.Succs[0] == b}
	for {
		if u, ok := g.cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			g.cond, g.truth = u.X, !g.truth
			continue
		}
		return g
	}
}

func sameOrDominates(a, b *ssa.BasicBlock) bool { return a == b || a.Dominates(b) }

// postDominates: every path from b to an exit of f passes a.
func postDominates(f *ssa.Function, a, b *ssa.BasicBlock) bool {
	if a == b {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool // true when an exit is reachable without a
	walk = func(x *ssa.BasicBlock) bool {
		if x == a || seen[x] {
			return false
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			_, isPanic := x.Instrs[len(x.Instrs)-1].(*ssa.Panic)
			return !isPanic
		}
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return !walk(b)
}

// marksError: f stores an error code into the type field of the message.
func marksError(f *ssa.Function, msg ssa.Value) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa) != "msgtype" || !sameObject(fa.X, msg) {
				continue
			}
			if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil {
				s := strings.ToLower(c.Value.String())
				if strings.Contains(s, "error") || strings.Contains(s, "exception") {
					return true
				}
			}
		}
	}
	return false
}

func setsTrueWith(e *flowEngine, f *ssa.Function, into ssa.Value, at *ssa.Store) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa) != e.errField || !sameObject(fa.X, into) {
				continue
			}
			if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "true" {
				if sameOrDominates(b, at.Block()) || postDominates(f, b, at.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// checkSeverity: nothing reachable from main adds a diagnostic only as a warning, and no stage reports
// a problem by printing it.
func checkSeverity(r *repo, x *result, e *flowEngine, stage map[*ssa.Function]*ssa.Function) {
	// functions that add a message without raising the error flag
	weak := map[*ssa.Function]bool{}
	for _, f := range r.funcs {
		addsMsg, setsErr := false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type(), e.blockPtr) {
						switch fieldName(fa) {
						case "listmsg":
							addsMsg = true
						case e.errField:
							setsErr = true
						}
					}
				}
			}
		}
		if addsMsg && !setsErr {
			weak[f] = true
		}
	}
	for f := range stage {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if s := c.Common().StaticCallee(); s != nil && weak[s] {
					x.oblige("severity")
					x.fail("severity", fname(f)+" -> "+fname(s), r.pos(c.Pos()), "a diagnostic is added by %s, which does not mark the block as an error", fname(s))
				}
			}
		}
	}
	x.oblige("severity")
	// console-only reports in functions that could return a block
	logs := map[*ssa.Function]bool{}
	for _, f := range r.funcs {
		if f.Signature.Variadic() && f.Signature.Results().Len() == 0 && len(f.Params) == 1 && f.Parent() == nil {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(calleeName(c), "fmt.Print") {
						logs[f] = true
					}
				}
			}
		}
	}
	// emitters run on a validated program; the remarks they print are not diagnostics
	langPtr := types.NewPointer(r.typ("vxlang"))
	for f := range stage {
		if logs[f] || e.reporters[f] || resultIndex(f.Signature, e.blockPtr) < 0 || calledFromMain(r, f) || takes(f, langPtr) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				s := c.Common().StaticCallee()
				if s == nil || !logs[s] || always(c) {
					continue // what is printed on every path is not about a fault
				}
				x.oblige("severity")
				x.fail("severity", fname(f)+" prints", r.pos(c.Pos()), "%s only prints a message with %s (reached by %s)", fname(f), fname(s), reachPath(stage, f))
			}
		}
	}
}

func takes(f *ssa.Function, t types.Type) bool {
	for _, p := range f.Params {
		if types.Identical(p.Type(), t) {
			return true
		}
	}
	return false
}

func calledFromMain(r *repo, f *ssa.Function) bool {
	for _, c := range r.callers(f) {
		if c.Parent() == r.spkgs[r.main].Func("main") {
			return true
		}
	}
	return false
}

// checkReport: the printed report covers every message and nested block, and main turns errors into an
// exit status.
func checkReport(r *repo, x *result, e *flowEngine) {
	// renderers: functions returning a string computed from a block
	for _, f := range r.funcs {
		if len(f.Params) != 1 || !types.Identical(f.Params[0].Type(), e.blockPtr) || f.Signature.Results().Len() != 1 {
			continue
		}
		if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		for _, field := range []string{"listmsg", "listmsgblock"} {
			x.oblige("report")
			if why := coversField(r, f, field); why != "" {
				x.fail("report", fname(f)+" "+field, r.pos(f.Pos()), "%s: %s", fname(f), why)
			}
		}
	}
	// every function returning a block to main has it tested for the exit status
	mainf := r.spkgs[r.main].Func("main")
	x.oblige("report")
	ok := false
	for _, b := range mainf.Blocks {
		for _, in := range b.Instrs {
			c, isCall := in.(*ssa.Call)
			if !isCall || !types.Identical(c.Type(), e.blockPtr) {
				continue
			}
			ok = exitOnError(e, mainf, c)
		}
	}
	if !ok {
		x.fail("report", "main exit status", r.pos(mainf.Pos()), "the process exits successfully although the run reported errors")
	}
	// the run reports its block: on every path from producing it with an error to the return a reporter runs
	for _, f := range r.funcs {
		calls := false
		for _, c := range r.callers(f) {
			if c.Parent() == mainf {
				calls = true
			}
		}
		if !calls || resultIndex(f.Signature, e.blockPtr) < 0 {
			continue
		}
		x.oblige("report")
		if why := reportsErrors(r, e, f); why != "" {
			x.fail("report", fname(f)+" prints the report", r.pos(f.Pos()), "%s", why)
		}
	}
}

// exitOnError: a non-zero exit is reached exactly when the error flag of blk is set.
func exitOnError(e *flowEngine, f *ssa.Function, blk ssa.Value) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || calleeName(c) != "os.Exit" {
				continue
			}
			if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.String() == "0" {
				continue
			}
			if g := guardOf(b); g != nil && g.truth && isErrTest(e, g.cond, blk) {
				return true
			}
		}
	}
	return false
}

// reportsErrors: walk from each test-free merge to the return assuming the flag is set; the reporter
// must be called on the way.
func reportsErrors(r *repo, e *flowEngine, f *ssa.Function) string {
	var blocks []*ssa.BasicBlock
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && !e.reporters[c.Call.StaticCallee()] {
				if types.Identical(c.Type(), e.blockPtr) && !e.isConstructor(c.Call.StaticCallee()) {
					blocks = append(blocks, b)
				}
			}
		}
	}
	for _, b := range blocks {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock) bool // true: an exit is reachable without a report
		walk = func(x *ssa.BasicBlock) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, in := range x.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && e.reporters[c.Call.StaticCallee()] {
					return false
				}
			}
			if len(x.Succs) == 0 {
				return true
			}
			for k, s := range x.Succs {
				if iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok {
					if clearEdge(e, iff.Cond, k == 0) {
						continue
					}
				}
				if walk(s) {
					return true
				}
			}
			return false
		}
		if walk(b) {
			return "an error recorded in " + fname(f) + " can leave it without being printed"
		}
	}
	return ""
}

// clearEdge: this edge is only taken when some block has no error.
func clearEdge(e *flowEngine, cond ssa.Value, truth bool) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return clearEdge(e, u.X, !truth)
	}
	if fieldOfLoad(cond) == e.errField {
		return !truth
	}
	if c, ok := cond.(*ssa.Call); ok {
		if s := c.Call.StaticCallee(); s != nil && e.errTests[s] {
			return !truth
		}
	}
	return false
}

// checkText: every loop over a parameter of a message constructor uses every element.
func checkText(r *repo, x *result, e *flowEngine) {
	for _, f := range r.funcs {
		if resultIndex(f.Signature, e.msgPtr) < 0 || len(f.Params) == 0 || !f.Signature.Variadic() {
			continue
		}
		last := f.Params[len(f.Params)-1]
		used := false
		for _, l := range naturalLoops(f) {
			for _, v := range l.over {
				if v != ssa.Value(last) {
					continue
				}
				used = true
				x.oblige("text")
				if why := everyIterationContributes(l); why != "" {
					x.fail("text", fname(f)+" data", r.pos(f.Pos()), "the loop over the message data %s", why)
				}
			}
		}
		if !used {
			// handed on as a whole
			for _, ref := range *last.Referrers() {
				if c, ok := ref.(*ssa.Call); ok && len(c.Call.Args) > 0 && c.Call.Args[len(c.Call.Args)-1] == ssa.Value(last) {
					used = true
					x.oblige("text")
				}
			}
		}
		if !used {
			x.oblige("text")
			x.fail("text", fname(f)+" data", r.pos(f.Pos()), "the message data is not used")
		}
	}
}
