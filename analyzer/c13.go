package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{
		id:        "C13",
		technique: "typestate analysis of every handle: opened, flushed, closed on every path",
		assumptions: []string{
			"a handle is any value with a Close method that a function outside the module returns",
			"panics raised by the Go runtime are not paths",
		},
		run: checkC13,
	})
}

func checkC13(r *repo, x *result) {
	x.rule("close", "a handle is closed, or handed to the caller, on every path from where it was opened to a return, except where opening failed")
	x.rule("log", "a handle kept in a package variable is closed by a function that runs on every path after the one that opened it, with no process exit in between")
	x.rule("flush", "a buffered writer is flushed before its file is closed or the function returns")
	x.rule("tail", "nothing is written to the log before it is opened or after it is closed")
	h := &handles{r: r, x: x, running: r.reach(r.spkgs[r.main].Func("main")), openers: map[*ssa.Function]int{}}
	// functions that return a handle they opened are openers themselves
	for again := true; again; {
		again = false
		for f := range h.running {
			if _, ok := h.openers[f]; ok {
				continue
			}
			for _, o := range h.opens(f) {
				for _, ref := range refsOf(o.val) {
					if ret, ok := ref.(*ssa.Return); ok {
						for i, v := range ret.Results {
							if v == o.val {
								h.openers[f] = i
								again = true
							}
						}
					}
				}
			}
		}
	}
	for _, f := range r.funcs {
		if _, ok := h.running[f]; !ok {
			continue
		}
		x.analysed["functions"]++
		for _, o := range h.opens(f) {
			h.check(f, o)
		}
	}
	x.atLeast("close", 1)
	x.atLeast("log", 1)
}

type handles struct {
	r       *repo
	x       *result
	running map[*ssa.Function]*ssa.Function
	openers map[*ssa.Function]int
}

type opened struct {
	call *ssa.Call
	val  ssa.Value // the handle
	err  ssa.Value // the error that says opening failed, if any
}

func refsOf(v ssa.Value) []ssa.Instruction {
	if v == nil || v.Referrers() == nil {
		return nil
	}
	return *v.Referrers()
}

func hasClose(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); ok {
		t = types.NewPointer(t)
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Close" {
			return true
		}
	}
	return false
}

func (h *handles) opens(f *ssa.Function) []opened {
	var out []opened
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			idx := -1
			if g := c.Call.StaticCallee(); g != nil {
				if h.r.inModule(g) {
					if i, ok := h.openers[g]; ok {
						idx = i
					}
				} else if i := closableResult(g.Signature); i >= 0 {
					idx = i
				}
			}
			if idx < 0 {
				continue
			}
			o := opened{call: c}
			if c.Call.Signature().Results().Len() == 1 {
				o.val = c
			}
			for _, ref := range refsOf(c) {
				if ex, ok := ref.(*ssa.Extract); ok {
					if ex.Index == idx {
						o.val = ex
					} else if types.Identical(ex.Type(), types.Universe.Lookup("error").Type()) {
						o.err = ex
					}
				}
			}
			out = append(out, o)
		}
	}
	return out
}

func closableResult(sig *types.Signature) int {
	for i := 0; i < sig.Results().Len(); i++ {
		if hasClose(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func (h *handles) check(f *ssa.Function, o opened) {
	key := fname(f) + " " + calleeName(o.call)
	pos := h.r.pos(o.call.Pos())
	if o.val == nil {
		h.x.oblige("close")
		h.x.fail("close", key, pos, "%s drops the handle %s returns", fname(f), calleeName(o.call))
		return
	}
	aliases := map[ssa.Value]bool{o.val: true}
	var global *ssa.Global
	for _, ref := range refsOf(o.val) {
		if st, ok := ref.(*ssa.Store); ok {
			switch a := st.Addr.(type) {
			case *ssa.Global:
				global = a
			case *ssa.Alloc:
				aliases[a] = true
			case *ssa.FieldAddr:
				aliases[a] = true
			}
		}
	}
	if global != nil {
		h.log(f, o, global)
		return
	}
	h.x.oblige("close")
	where := h.leak(f, o, aliases)
	if where != "" {
		h.x.fail("close", key, pos, "%s can return at %s without closing what %s opened", fname(f), where, calleeName(o.call))
	} else {
		h.x.sample("close", fname(f)+" closes what "+calleeName(o.call)+" opened on every path")
	}
	h.flushLocal(f, o, aliases)
}

func isHandle(v ssa.Value, aliases map[ssa.Value]bool) bool {
	if aliases[v] {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && aliases[u.X] {
		return true
	}
	if m, ok := v.(*ssa.MakeInterface); ok {
		return isHandle(m.X, aliases)
	}
	if c, ok := v.(*ssa.ChangeInterface); ok {
		return isHandle(c.X, aliases)
	}
	return false
}

// closes: the call (or deferred call) closes the handle.
func (h *handles) closes(c ssa.CallInstruction, aliases map[ssa.Value]bool, depth int) bool {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method.Name() == "Close" && isHandle(cc.Value, aliases)
	}
	g := cc.StaticCallee()
	if g == nil {
		return false
	}
	if g.Name() == "Close" && len(cc.Args) > 0 && isHandle(cc.Args[0], aliases) {
		return true
	}
	if g.Blocks == nil || !h.r.inModule(g) || depth > 3 {
		return false
	}
	inner := map[ssa.Value]bool{}
	for i, a := range cc.Args {
		if isHandle(a, aliases) && i < len(g.Params) {
			inner[g.Params[i]] = true
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			if aliases[b] {
				inner[g.FreeVars[i]] = true
			}
		}
	}
	if len(inner) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c2, ok := in.(ssa.CallInstruction); ok && h.closes(c2, inner, depth+1) && always(c2) {
				return true
			}
		}
	}
	return false
}

// failedEdge: on the k-th edge out of b opening is known to have failed.
func failedEdge(b *ssa.BasicBlock, k int, o opened, aliases map[ssa.Value]bool) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	var tested ssa.Value
	switch {
	case isNilConst(cmp.Y):
		tested = cmp.X
	case isNilConst(cmp.X):
		tested = cmp.Y
	default:
		return false
	}
	isnil := cmp.Op == token.EQL && k == 0 || cmp.Op == token.NEQ && k == 1
	if isHandle(tested, aliases) {
		return isnil
	}
	if o.err == nil {
		return false
	}
	if sameError(tested, o.err) {
		return !isnil
	}
	return false
}

func sameError(v, err ssa.Value) bool {
	if v == err {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		for _, ref := range refsOf(err) {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == u.X && before(st, u) {
				// no other store in between in the same block
				last := ssa.Instruction(st)
				for _, r2 := range refsOf(u.X) {
					if s2, ok := r2.(*ssa.Store); ok && s2.Addr == u.X && s2 != st && before(st, s2) && before(s2, u) {
						last = s2
					}
				}
				return last == ssa.Instruction(st)
			}
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (h *handles) leak(f *ssa.Function, o opened, aliases map[ssa.Value]bool) string {
	seen := map[*ssa.BasicBlock]bool{}
	where := ""
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		if where != "" {
			return
		}
		for _, in := range b.Instrs[from:] {
			switch c := in.(type) {
			case *ssa.Go:
			case ssa.CallInstruction:
				if h.closes(c, aliases, 0) {
					if _, ok := in.(*ssa.Defer); ok && inLoop(f, o.call.Block()) {
						where = "the next round of its loop (closing is deferred to the end of the function)"
					}
					return
				}
			case *ssa.Return:
				for _, v := range c.Results {
					if isHandle(v, aliases) {
						return
					}
				}
				where = h.r.pos(c.Pos())
				if !c.Pos().IsValid() {
					where = "the end of the function"
				}
				return
			}
		}
		for k, s := range b.Succs {
			if failedEdge(b, k, o, aliases) || seen[s] {
				continue
			}
			seen[s] = true
			walk(s, 0)
		}
	}
	for i, in := range o.call.Block().Instrs {
		if in == ssa.Instruction(o.call) {
			walk(o.call.Block(), i+1)
		}
	}
	return where
}

func inLoop(f *ssa.Function, b *ssa.BasicBlock) bool {
	for _, l := range naturalLoops(f) {
		if l.body[b] {
			return true
		}
	}
	return false
}

// flushLocal: a buffered writer over the handle is flushed before the function returns.
func (h *handles) flushLocal(f *ssa.Function, o opened, aliases map[ssa.Value]bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || !isBufferedWriter(c) || len(c.Call.Args) == 0 || !isHandle(c.Call.Args[0], aliases) {
				continue
			}
			h.x.oblige("flush")
			w := map[ssa.Value]bool{c: true}
			for _, ref := range refsOf(c) {
				if st, ok := ref.(*ssa.Store); ok {
					w[st.Addr] = true
				}
			}
			flushed := false
			for _, b2 := range f.Blocks {
				for _, in2 := range b2.Instrs {
					if c2, ok := in2.(ssa.CallInstruction); ok && isFlush(c2, w) {
						flushed = true
					}
				}
			}
			if !flushed {
				h.x.fail("flush", fname(f), h.r.pos(c.Pos()), "%s never flushes its buffered writer", fname(f))
			}
		}
	}
}

func isBufferedWriter(c *ssa.Call) bool {
	n := calleeName(c)
	return n == "bufio.NewWriter" || n == "bufio.NewWriterSize"
}

func isFlush(c ssa.CallInstruction, w map[ssa.Value]bool) bool {
	return calleeName(c) == "(*bufio.Writer).Flush" && isHandle(c.Common().Args[0], w)
}

// log checks a handle kept in a package variable.
func (h *handles) log(f *ssa.Function, o opened, global *ssa.Global) {
	r, x := h.r, h.x
	x.oblige("log")
	key := "log " + global.Name()
	vars := map[ssa.Value]bool{global: true}
	// the writer over the handle, if any
	writers := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && isBufferedWriter(c) {
				for _, ref := range refsOf(c) {
					if st, ok := ref.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							writers[g] = true
						}
					}
				}
			}
		}
	}
	// functions that close it
	closers := map[*ssa.Function]ssa.CallInstruction{}
	for g := range h.running {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && h.closes(c, vars, 3) {
					closers[g] = c
				}
			}
		}
	}
	if len(closers) == 0 {
		x.fail("log", key, r.pos(o.call.Pos()), "nothing closes the handle %s keeps in %s", fname(f), global.Name())
		return
	}
	for g, c := range closers {
		if len(writers) == 0 {
			continue
		}
		x.oblige("flush")
		flushed := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c2, ok := in.(ssa.CallInstruction); ok && isFlush(c2, writers) {
					_, d1 := in.(*ssa.Defer)
					_, d2 := c.(*ssa.Defer)
					switch {
					case !d1 && !d2:
						flushed = flushed || before(in, c)
					case !d1 && d2:
						flushed = true
					case d1 && d2:
						flushed = flushed || before(c, in) // deferred calls run in reverse
					}
				}
			}
		}
		if !flushed {
			x.fail("flush", fname(g), r.pos(c.Pos()), "%s closes the log without flushing its writer first", fname(g))
		}
		if why := onlyFlagSkips(c, vars, writers, f); why != "" {
			x.fail("log", key+" in "+fname(g), r.pos(c.Pos()), "%s may not close the log: %s", fname(g), why)
		} else {
			x.sample("log", fname(g)+" flushes and closes "+global.Name())
		}
	}
	// every caller of the opener runs a closer afterwards
	uses := h.users(writers, vars, f, closers)
	for _, c := range r.callers(f) {
		g := c.Parent()
		if _, ok := h.running[g]; !ok {
			continue
		}
		x.oblige("log")
		if where := h.unclosed(c, closers); where != "" {
			x.fail("log", key+" "+fname(g), where, "%s can return without closing the log it opened with %s", fname(g), fname(f))
		}
		// process exits while the log is open
		for fn := range r.reach(g) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					e, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					n := calleeName(e)
					if n == "os.Exit" || strings.HasPrefix(n, "log.Fatal") || n == "runtime.Goexit" || n == "syscall.Exit" {
						x.fail("log", key+" exit in "+fname(fn), r.pos(e.Pos()), "%s ends the process with %s while the log may be unwritten", fname(fn), n)
					}
				}
			}
		}
		x.oblige("tail")
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c2, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				s := c2.Common().StaticCallee()
				if s == nil || !uses[s] {
					continue
				}
				if before(c2, c) && ssa.Instruction(c2) != ssa.Instruction(c) {
					x.fail("tail", fname(g)+" early "+fname(s), r.pos(c2.Pos()), "%s uses the log through %s before opening it", fname(g), fname(s))
				}
				for _, b3 := range g.Blocks {
					for _, in3 := range b3.Instrs {
						c3, ok := in3.(*ssa.Call)
						if !ok {
							continue
						}
						if t := c3.Call.StaticCallee(); t != nil && closers[t] != nil && reachesInstr(c3, in) {
							x.fail("tail", fname(g)+" late "+fname(s), r.pos(c2.Pos()), "%s uses the log through %s after closing it", fname(g), fname(s))
						}
					}
				}
			}
		}
		x.sample("tail", fname(g)+" uses the log only between opening and closing it")
	}
}

// users: functions that lead to a use of the log's variables, other than opening and closing it.
func (h *handles) users(writers, vars map[ssa.Value]bool, opener *ssa.Function, closers map[*ssa.Function]ssa.CallInstruction) map[*ssa.Function]bool {
	direct := map[*ssa.Function]bool{}
	for f := range h.running {
		if f == opener || closers[f] != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && (writers[u.X] || vars[u.X]) {
					direct[f] = true
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for f := range h.running {
		if f == opener || closers[f] != nil {
			continue
		}
		for g := range h.r.reach(f) {
			if direct[g] {
				out[f] = true
			}
		}
	}
	return out
}

// unclosed looks for a path from the opening call to a return that runs no closer.
func (h *handles) unclosed(open ssa.CallInstruction, closers map[*ssa.Function]ssa.CallInstruction) string {
	f := open.Parent()
	// a deferred closer anywhere before counts for every path
	where := ""
	seen := map[*ssa.BasicBlock]bool{}
	closing := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, ok := in.(*ssa.Go); ok {
			return false
		}
		g := c.Common().StaticCallee()
		if g == nil {
			return false
		}
		if closers[g] != nil {
			return true
		}
		// a function that always runs a closer
		if g.Blocks != nil && h.r.inModule(g) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && closers[c.Common().StaticCallee()] != nil && always(c) {
						return true
					}
				}
			}
		}
		return false
	}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for _, in := range b.Instrs[from:] {
			if closing(in) {
				return
			}
			if ret, ok := in.(*ssa.Return); ok {
				where = h.r.pos(ret.Pos())
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] && where == "" {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			if in == open.(ssa.Instruction) {
				walk(b, i+1)
			}
			if _, ok := in.(*ssa.Defer); ok && closing(in) && before(in, open) {
				return ""
			}
		}
	}
	return where
}

// onlyFlagSkips: the closing call runs on every path unless a package flag the opener sets, or the
// handle itself, says there is nothing to close.
func onlyFlagSkips(c ssa.CallInstruction, vars, writers map[ssa.Value]bool, opener *ssa.Function) string {
	flags := map[ssa.Value]bool{}
	for _, b := range opener.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
					flags[st.Addr] = true
				}
			}
		}
	}
	fn := c.Parent()
	bad := ""
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || bad != "" {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if in == c.(ssa.Instruction) {
				return
			}
			if _, ok := in.(*ssa.Return); ok {
				bad = "there is a path to a return that does not close it"
				return
			}
		}
		for k, s := range b.Succs {
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				cond, truth := br.Cond, k == 0
				for {
					n, ok := cond.(*ssa.UnOp)
					if !ok || n.Op != token.NOT {
						break
					}
					cond, truth = n.X, !truth
				}
				if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.MUL && flags[u.X] && !truth {
					continue
				}
				if cmp, ok := cond.(*ssa.BinOp); ok && (isNilConst(cmp.X) || isNilConst(cmp.Y)) {
					isnil := cmp.Op == token.EQL && truth || cmp.Op == token.NEQ && !truth
					if isnil && (isHandle(cmp.X, vars) || isHandle(cmp.Y, vars) || isHandle(cmp.X, writers) || isHandle(cmp.Y, writers)) {
						continue
					}
				}
			}
			walk(s)
		}
	}
	walk(fn.Blocks[0])
	return bad
}

// reachesInstr: control can flow from a to b.
func reachesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && before(a, b) && a != b {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a.Block())
}
