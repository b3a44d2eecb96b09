package main

import (
	"sort"
	"strings"

	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{
		id:        "C02",
		technique: "typestate automaton over the SSA of the driver, with error-flag refinement",
		assumptions: []string{
			"each stage reports its errors in the block it returns (checked by C01)",
		},
		run: checkC02,
	})
}

// the stages in the order they have to be carried out
var stageOrder = []string{"read", "libraries", "order", "link", "validate"}

var stageFuncs = map[string]string{
	"ProjectReadAllFromPath":       "read",
	"ListPackageValidateLibraries": "libraries",
	"ListPackageSortDependencies":  "order",
	"ListPackageLink":              "link",
	"ListPackageValidate":          "validate",
}

func stageBit(s string) int {
	for i, o := range stageOrder {
		if o == s {
			return 1 << i
		}
	}
	return 0
}

type gateKey struct {
	bits int
	yes  bool // some pending error is known to be set
}

// gateState: for each pending stage result the values certainly holding it.
type gateState struct {
	pending map[string]holdset
	clear   holdset // blocks whose flag has been tested, is clear, and to which nothing was added since
}

func (s *gateState) clone() *gateState {
	o := &gateState{map[string]holdset{}, s.clear.clone()}
	for k, h := range s.pending {
		o.pending[k] = h.clone()
	}
	return o
}

// join merges b into a; true when a changed.
func (a *gateState) join(b *gateState) bool {
	changed := false
	for v := range a.clear {
		if !b.clear[v] {
			delete(a.clear, v)
			changed = true
		}
	}
	for k, h := range b.pending {
		ah, ok := a.pending[k]
		if !ok {
			a.pending[k] = h.clone()
			changed = true
			continue
		}
		for v := range ah {
			if !h[v] {
				delete(ah, v)
				changed = true
			}
		}
	}
	return changed
}

// produce makes the result of c pending; a result of the same kind that is still pending stays so.
func (s *gateState) produce(kind string, c *ssa.Call) {
	if old, ok := s.pending[kind]; ok {
		delete(old, c)
		earlier := &gateState{map[string]holdset{kind + " (earlier)": old}, s.clear}
		delete(s.pending, kind)
		s.join(earlier)
	}
	s.pending[kind] = holdset{c: true}
}

type gateStates map[gateKey]*gateState

type gateAnalysis struct {
	r       *repo
	x       *result
	e       *flowEngine
	inline  map[*ssa.Function]bool // reaches a stage
	command map[*ssa.Function]bool // reaches a write or serves
	stack   []*ssa.Function
	seen    map[string]bool
	events  map[string]int
}

var writePrims = map[string]bool{
	"os.Create": true, "os.OpenFile": true, "os.WriteFile": true, "os.Mkdir": true, "os.MkdirAll": true,
	"os.Symlink": true, "os.Link": true, "os.CreateTemp": true, "os.MkdirTemp": true, "io/ioutil.WriteFile": true,
	"os.CopyFS": true, "os.Truncate": true,
	"net/http.ListenAndServe": true, "net/http.ListenAndServeTLS": true, "net.Listen": true,
	"(*net/http.Server).ListenAndServe": true, "net/http.Serve": true,
}

// logOpeners are the functions that open the build log: they keep what they create in a global.
func logOpeners(r *repo) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if _, ok := st.Addr.(*ssa.Global); ok {
						for _, s := range openedBy(st.Val, 0) {
							if writePrims[s] {
								out[f] = true
							}
						}
					}
				}
			}
		}
	}
	return out
}

// reachesPrim computes the functions from which a call of a primitive is reachable, not passing skip.
func (r *repo) reachesPrim(prim func(ssa.CallInstruction) bool, skip map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	for _, f := range r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if prim(c) && !skip[f] && !out[f] {
						out[f] = true
						work = append(work, f)
					}
					for _, g := range r.callees(c) {
						callers[g] = append(callers[g], f)
					}
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok {
							callers[g] = append(callers[g], f)
						}
					}
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, c := range callers[f] {
			if !out[c] && !skip[c] {
				out[c] = true
				work = append(work, c)
			}
		}
	}
	return out
}

func checkC02(r *repo, x *result) {
	x.rule("order", "each stage starts only after all the stages before it have been carried out")
	x.rule("gate", "each stage and each command starts only where the error flag of a block holding the results of everything before it has been tested and is clear")
	x.rule("sole", "files are only written and ports only opened below a gated command")
	a := &gateAnalysis{r: r, x: x, e: newFlowEngine(r), seen: map[string]bool{}, events: map[string]int{}}
	for name, st := range stageFuncs {
		if r.fn(name) == nil {
			x.fail("order", "stage "+st, "-", "the %s stage (%s) is gone", st, name)
		}
	}
	a.inline = r.reachesPrim(func(c ssa.CallInstruction) bool {
		s := c.Common().StaticCallee()
		return s != nil && stageFuncs[s.Name()] != "" && r.inModule(s)
	}, nil)
	logs := logOpeners(r)
	a.command = r.reachesPrim(func(c ssa.CallInstruction) bool { return writePrims[calleeName(c)] }, logs)
	mainf := r.spkgs[r.main].Func("main")
	start := gateStates{gateKey{}: &gateState{map[string]holdset{}, holdset{}}}
	a.fun(mainf, start)
	var keys []string
	for k := range a.events {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		x.sample("gate", k)
	}
	x.analysed["events"] = len(keys)
	for _, st := range stageOrder {
		if a.events["stage "+st] == 0 {
			x.fail("order", "stage "+st, "-", "the %s stage is never carried out before a command", st)
		}
	}
	// the stages themselves never write
	for name, st := range stageFuncs {
		if f := r.fn(name); f != nil {
			x.oblige("sole")
			if a.command[f] {
				x.fail("sole", "stage "+st+" writes", r.pos(f.Pos()), "the %s stage can write files", st)
			}
		}
	}
	x.atLeast("gate", 6)
	x.atLeast("order", 6)
	x.atLeast("sole", 5)
}

func (a *gateAnalysis) fail(rule, key string, pos token.Pos, format string, args ...any) {
	k := rule + key
	if !a.seen[k] {
		a.seen[k] = true
		a.x.fail(rule, key, a.r.pos(pos), format, args...)
	}
}

// fun runs the automaton through f and returns the states at its returns, with what the results and
// parameters hold expressed as values of f.
func (a *gateAnalysis) fun(f *ssa.Function, entry gateStates) (exits []struct {
	ret *ssa.Return
	st  gateStates
}) {
	for _, g := range a.stack {
		if g == f {
			return nil
		}
	}
	a.stack = append(a.stack, f)
	defer func() { a.stack = a.stack[:len(a.stack)-1] }()
	in := map[*ssa.BasicBlock]gateStates{f.Blocks[0]: entry}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	rets := map[*ssa.Return]gateStates{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := gateStates{}
		for k, s := range in[b] {
			cur[k] = s.clone()
		}
		for _, instr := range b.Instrs {
			cur = a.instr(f, instr, cur)
			if ret, ok := instr.(*ssa.Return); ok {
				rets[ret] = cur
			}
		}
		for k, s := range b.Succs {
			out := a.edge(b, k, s, cur)
			dst := in[s]
			if dst == nil {
				dst = gateStates{}
				in[s] = dst
			}
			changed := false
			for key, st := range out {
				if old, ok := dst[key]; ok {
					changed = old.join(st) || changed
				} else {
					dst[key] = st
					changed = true
				}
			}
			if changed {
				work = append(work, s)
			}
		}
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if st, ok := rets[ret]; ok {
				exits = append(exits, struct {
					ret *ssa.Return
					st  gateStates
				}{ret, st})
			}
		}
	}
	return exits
}

// edge applies phis and the outcome of the branch.
func (a *gateAnalysis) edge(b *ssa.BasicBlock, k int, s *ssa.BasicBlock, cur gateStates) gateStates {
	pi := predIndexNth(s, b, k)
	out := gateStates{}
	for key, st := range cur {
		ns := st.clone()
		nk := key
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if obj, set := a.errTest(iff.Cond, k == 0); obj != nil {
				if set && ns.clear[obj] {
					continue // infeasible: the flag was tested before
				}
				held := false
				for kind, h := range ns.pending {
					if h[obj] {
						held = true
						if !set {
							delete(ns.pending, kind)
						}
					}
				}
				if !set {
					ns.clear[obj] = true
				}
				if set && held {
					nk.yes = true
				}
				if !set && held && key.yes && len(ns.pending) == 0 {
					continue // infeasible: the error is set and the flag says it is not
				}
			}
		}
		sets := []holdset{ns.clear}
		for _, h := range ns.pending {
			sets = append(sets, h)
		}
		for _, h := range sets {
			var add, del []ssa.Value
			for _, si := range s.Instrs {
				phi, ok := si.(*ssa.Phi)
				if !ok {
					break
				}
				if h[phi.Edges[pi]] {
					add = append(add, phi)
				} else {
					del = append(del, phi)
				}
			}
			for _, v := range del {
				delete(h, v)
			}
			for _, v := range add {
				h[v] = true
			}
		}
		if old, ok := out[nk]; ok {
			old.join(ns)
		} else {
			out[nk] = ns
		}
	}
	return out
}

// errTest: on this outcome of cond the error flag of the returned object is set or clear.
func (a *gateAnalysis) errTest(cond ssa.Value, truth bool) (ssa.Value, bool) {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return a.errTest(u.X, !truth)
	}
	if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && types.Identical(c.Type().Underlying(), types.Typ[types.Bool]) {
			same := (c.Value.String() == "true") == (bo.Op == token.EQL)
			return a.errTest(bo.X, truth == same)
		}
	}
	if fieldOfLoad(cond) == a.e.errField {
		return loadBase(cond), truth
	}
	if c, ok := cond.(*ssa.Call); ok {
		if s := c.Call.StaticCallee(); s != nil && a.e.errTests[s] {
			return c.Call.Args[0], truth
		}
	}
	return nil, false
}

func (a *gateAnalysis) instr(f *ssa.Function, instr ssa.Instruction, cur gateStates) gateStates {
	c, isCall := instr.(*ssa.Call)
	if ex, ok := instr.(*ssa.Extract); ok {
		if tc, ok := ex.Tuple.(*ssa.Call); ok {
			if s := tc.Call.StaticCallee(); s != nil && stageFuncs[s.Name()] == "" && a.inline[s] {
				return cur // set by call
			}
		}
	}
	if !isCall {
		for _, st := range cur {
			for kind, h := range st.pending {
				if ex, ok := instr.(*ssa.Extract); ok && h[ex.Tuple] {
					if types.Identical(ex.Type(), a.e.blockPtr) {
						h[ex] = true
					}
					continue
				}
				if a.e.transfer(instr, h, flowBlock) {
					delete(st.pending, kind)
				}
			}
		}
		return cur
	}
	callee := c.Call.StaticCallee()
	if callee == nil || !a.e.errTests[callee] && !a.inline[callee] {
		for _, st := range cur {
			for _, arg := range c.Call.Args {
				delete(st.clear, arg)
			}
			delete(st.clear, c)
		}
	}
	stage := ""
	if callee != nil && a.r.inModule(callee) {
		stage = stageFuncs[callee.Name()]
	}
	name := ""
	if callee != nil {
		name = fname(callee)
	}
	switch {
	case stage != "":
		a.events["stage "+stage]++
		key := "stage " + stage + " in " + fname(f)
		a.x.obligeOnce("order", key+a.r.pos(c.Pos()))
		a.x.obligeOnce("gate", key+a.r.pos(c.Pos()))
		bit := stageBit(stage)
		out := gateStates{}
		for k, st := range cur {
			if miss := (bit - 1) &^ k.bits; miss != 0 {
				a.fail("order", key, c.Pos(), "the %s stage can start before the %s stage", stage, stageNames(miss))
			}
			later := k.bits &^ (bit | (bit - 1))
			if stage == "read" {
				later &^= stageBit("libraries") // other projects are read and resolved one by one
			}
			if later != 0 {
				a.fail("order", key, c.Pos(), "the %s stage can start after the %s stage", stage, stageNames(later))
			}
			if stage != "read" {
				a.ungated(k, st, key, c.Pos(), "the "+stage+" stage")
			}
			for kind, h := range st.pending {
				if a.e.transfer(instr, h, flowBlock) {
					delete(st.pending, kind)
				}
			}
			st.produce(stage, c)
			nk := gateKey{k.bits | bit, k.yes}
			if old, ok := out[nk]; ok {
				old.join(st)
			} else {
				out[nk] = st
			}
		}
		return out
	case callee != nil && a.inline[callee] && a.r.inModule(callee):
		return a.call(f, c, callee, cur)
	case callee != nil && a.command[callee] && a.r.inModule(callee) || writePrims[calleeName(c)] && !logOpeners(a.r)[f]:
		if name == "" || !a.r.inModule(callee) {
			name = calleeName(c)
		}
		a.events["command "+name]++
		key := "command " + name + " in " + fname(f)
		a.x.obligeOnce("gate", key+a.r.pos(c.Pos()))
		a.x.obligeOnce("order", key+a.r.pos(c.Pos()))
		for k, st := range cur {
			if miss := (1<<len(stageOrder) - 1) &^ k.bits; miss != 0 {
				a.fail("order", key, c.Pos(), "%s can run before the %s stage", name, stageNames(miss))
			}
			a.ungated(k, st, key, c.Pos(), name)
		}
	}
	for _, st := range cur {
		for kind, h := range st.pending {
			if a.e.transfer(instr, h, flowBlock) {
				delete(st.pending, kind)
			}
		}
		// any other diagnostics gathered on the way also have to be clear
		if callee != nil && a.r.inModule(callee) && resultIndex(callee.Signature, a.e.blockPtr) >= 0 && !a.e.isConstructor(callee) && a.e.returnsParamOf(c) < 0 {
			st.produce(name, c)
		}
	}
	return cur
}

func (a *gateAnalysis) ungated(k gateKey, st *gateState, key string, pos token.Pos, what string) {
	if k.yes {
		a.fail("gate", key, pos, "%s can start although an error has been reported", what)
		return
	}
	var open []string
	for kind := range st.pending {
		open = append(open, kind)
	}
	if len(open) > 0 {
		sort.Strings(open)
		a.fail("gate", key, pos, "%s can start without testing the diagnostics of: %s", what, strings.Join(open, ", "))
	}
}

// call runs the automaton through a callee that contains stages.
func (a *gateAnalysis) call(f *ssa.Function, c *ssa.Call, callee *ssa.Function, cur gateStates) gateStates {
	out := gateStates{}
	for key, st := range cur {
		entry := &gateState{map[string]holdset{}, holdset{}}
		for j, arg := range c.Call.Args {
			if st.clear[arg] && j < len(callee.Params) {
				entry.clear[callee.Params[j]] = true
			}
		}
		for kind, h := range st.pending {
			eh := holdset{}
			for j, arg := range c.Call.Args {
				if h[arg] && j < len(callee.Params) {
					eh[callee.Params[j]] = true
				}
			}
			entry.pending[kind] = eh
		}
		exits := a.fun(callee, gateStates{key: entry})
		for _, ex := range exits {
			for k2, s2 := range ex.st {
				ns := &gateState{map[string]holdset{}, st.clear.clone()}
				for j, arg := range c.Call.Args {
					delete(ns.clear, arg)
					if j < len(callee.Params) && s2.clear[callee.Params[j]] {
						ns.clear[arg] = true
					}
				}
				if len(ex.ret.Results) == 1 && s2.clear[ex.ret.Results[0]] {
					ns.clear[c] = true
				}
				for kind, h2 := range s2.pending {
					nh := holdset{}
					if old, ok := st.pending[kind]; ok {
						nh = old.clone()
					}
					for i, v := range ex.ret.Results {
						if h2[v] {
							if len(ex.ret.Results) == 1 {
								nh[c] = true
							} else {
								for _, ref := range *c.Referrers() {
									if e2, ok := ref.(*ssa.Extract); ok && e2.Index == i {
										nh[e2] = true
									}
								}
							}
						}
					}
					for j, p := range callee.Params {
						if h2[p] && j < len(c.Call.Args) {
							nh[c.Call.Args[j]] = true
							a.e.holdAliases(c.Call.Args[j], nh)
						}
					}
					ns.pending[kind] = nh
				}
				if old, ok := out[k2]; ok {
					old.join(ns)
				} else {
					out[k2] = ns
				}
			}
		}
	}
	return out
}

func stageNames(bits int) string {
	var out []string
	for i, s := range stageOrder {
		if bits&(1<<i) != 0 {
			out = append(out, s)
		}
	}
	return strings.Join(out, ", ")
}

// obligeOnce counts an obligation once per construct.
func (x *result) obligeOnce(rule, key string) {
	if x.once == nil {
		x.once = map[string]bool{}
	}
	if !x.once[rule+"\x00"+key] {
		x.once[rule+"\x00"+key] = true
		x.oblige(rule)
	}
}
