package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{
		id:        "C03",
		technique: "effect analysis: map-range order sensitivity, ambient inputs, address formatting, scheduling",
		assumptions: []string{
			"the Go standard library functions used (sort, strings, fmt on strings and numbers) are deterministic",
			"directory walks return entries in lexical order (documented for filepath.Walk)",
			"the absolute location of the project is part of the input",
		},
		run: checkC03,
	})
}

// ambient inputs that must not influence what is generated
var ambientPrefixes = []string{
	"time.", "(time.", "math/rand", "crypto/rand", "os.Getenv", "os.LookupEnv", "os.Environ", "os.ExpandEnv",
	"os.Hostname", "os.Getpid", "os.Getppid", "os.Getuid", "os.UserHomeDir", "os.UserCacheDir", "os.TempDir",
	"os/user.", "runtime.", "(*runtime.", "net.Interfaces", "unsafe.", "reflect.Value.Pointer", "(reflect.Value).Pointer",
	"(reflect.Value).UnsafeAddr", "hash/maphash.", "(*hash/maphash.", "os.Executable", "(io/fs.FileInfo).ModTime",
	"invoke io/fs.FileInfo.ModTime", "os.MkdirTemp", "os.CreateTemp", "runtime/debug.",
}

func checkC03(r *repo, x *result) {
	x.rule("maprange", "a loop over a map only has effects that do not depend on the order of iteration: map and set updates, commutative sums, flags, or a list that is sorted before it is used")
	x.rule("ambient", "nothing reachable from a command reads time, randomness, environment, host or process state")
	x.rule("address", "values formatted into text or diagnostics never print memory addresses")
	x.rule("schedule", "no goroutine, channel or select takes part in producing output")
	x.rule("sortorder", "sorts compare the whole element, so ties cannot expose the previous order")
	mainf := r.spkgs[r.main].Func("main")
	stage := r.reach(mainf)
	for _, f := range r.funcs {
		if _, ok := stage[f]; !ok {
			continue
		}
		x.analysed["functions"]++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch c := in.(type) {
				case *ssa.Range:
					if _, ok := c.X.Type().Underlying().(*types.Map); ok {
						x.oblige("maprange")
						x.sample("maprange", fname(f)+" ranges over "+mapName(c.X)+" at "+r.pos(c.Pos()))
						if why := orderSensitive(r, f, c, 0); why != "" {
							x.fail("maprange", fname(f)+" ranges over "+mapName(c.X), r.pos(c.Pos()), "the order of this loop over a map shows: %s (reached by %s)", why, reachPath(stage, f))
						}
					}
				case *ssa.Go:
					x.oblige("schedule")
					x.fail("schedule", fname(f)+" go", r.pos(c.Pos()), "a goroutine is started (reached by %s)", reachPath(stage, f))
				case *ssa.Select:
					x.oblige("schedule")
					x.fail("schedule", fname(f)+" select", r.pos(c.Pos()), "a select statement (reached by %s)", reachPath(stage, f))
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					x.analysed["call sites"]++
					n := calleeName(c)
					for _, p := range ambientPrefixes {
						if strings.HasPrefix(n, p) {
							x.oblige("ambient")
							x.fail("ambient", fname(f)+" calls "+n, r.pos(c.Pos()), "%s is called (reached by %s)", n, reachPath(stage, f))
						}
					}
					checkAddresses(r, x, f, c)
					checkSort(r, x, f, c)
					checkUnorderedSlices(r, x, f, c, stage)
				}
			}
		}
	}
	x.oblige("ambient")
	x.oblige("schedule")
	x.atLeast("maprange", 1)
	x.atLeast("address", 80)
	x.atLeast("sortorder", 1)
}

func mapName(v ssa.Value) string {
	if n := fieldOfLoad(v); n != "" {
		return "." + n
	}
	switch y := v.(type) {
	case *ssa.Parameter:
		return y.Name()
	case *ssa.Call:
		return calleeName(y) + "()"
	}
	return v.Type().String()
}

// checkUnorderedSlices treats maps.Keys and friends as a loop over a map.
func checkUnorderedSlices(r *repo, x *result, f *ssa.Function, c ssa.CallInstruction, stage map[*ssa.Function]*ssa.Function) {
	n := calleeName(c)
	if i := strings.Index(n, "["); i > 0 {
		n = n[:i]
	}
	switch n {
	case "maps.Keys", "maps.Values", "maps.All", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values", "(reflect.Value).MapKeys", "(reflect.Value).MapRange":
	default:
		return
	}
	x.oblige("maprange")
	v, ok := c.(*ssa.Call)
	if ok && len(*v.Referrers()) > 0 {
		sorted := true
		for _, ref := range *v.Referrers() {
			rc, ok := ref.(*ssa.Call)
			if !ok || !strings.HasPrefix(calleeName(rc), "slices.Sorted") {
				sorted = false
			}
		}
		if sorted {
			return
		}
		if sortedBeforeUse(r, f, v, nil) == "" {
			return
		}
	}
	x.fail("maprange", fname(f)+" calls "+n, r.pos(c.Pos()), "%s yields the keys or values of a map in no particular order (reached by %s)", n, reachPath(stage, f))
}

// orderSensitive explains why the outcome of a loop over a map depends on the order, or returns "".
func orderSensitive(r *repo, f *ssa.Function, rg *ssa.Range, depth int) string {
	var l *loop
	for _, cand := range naturalLoops(f) {
		for b := range cand.body {
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok && nx.Iter == rg {
					if l == nil || len(cand.body) < len(l.body) {
						l = cand
					}
				}
			}
		}
	}
	if l == nil {
		return "" // at most one iteration is ever looked at: the loop body always leaves
	}
	elem := map[ssa.Value]bool{}
	for _, ref := range *nextOf(rg).Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index > 0 {
			elem[ex] = true
		}
	}
	// values computed in the loop
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Block() != nil && l.body[in.Block()]
	}
	// leaving the loop early with something that depends on the element
	for b := range l.body {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if l.body[s] {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range s.Preds {
					if p == b && inLoop(phi.Edges[i]) && !constantLike(phi.Edges[i]) {
						return "the loop is left early with a value of the current element"
					}
				}
			}
			// uses of loop values after an early exit without a phi
			for lb := range l.body {
				for _, in := range lb.Instrs {
					v, ok := in.(ssa.Value)
					if !ok || v.Referrers() == nil {
						continue
					}
					for _, ref := range *v.Referrers() {
						if ref.Block() != nil && !l.body[ref.Block()] && s.Dominates(ref.Block()) {
							return "the loop is left early and uses the element it stopped at"
						}
					}
				}
			}
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				if inLoop(v) && !constantLike(v) {
					return "the loop returns the element it stopped at"
				}
			}
		}
	}
	// values carried around
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if why := carriedOrder(r, f, l, phi); why != "" {
			return why
		}
	}
	// stores and calls
	for b := range l.body {
		for _, in := range b.Instrs {
			switch c := in.(type) {
			case *ssa.Store:
				if !ownStore(l, c) {
					if c2, ok := c.Val.(*ssa.Const); ok && c2 != nil {
						continue // setting a flag
					}
					if fa, ok := c.Addr.(*ssa.FieldAddr); ok && elemObject(fa.X, elem) {
						continue // changes the element itself
					}
					return "it stores into " + describeAddr(c.Addr)
				}
			case *ssa.MapUpdate:
				if !elem[c.Key] && !derivedFrom(c.Key, elem, 0) {
					return "it stores under a key that is not the key of the element"
				}
			case *ssa.Call:
				if why := orderedCall(r, c, depth); why != "" {
					return why
				}
			case *ssa.Send:
				return "it sends on a channel"
			}
		}
	}
	return ""
}

func nextOf(rg *ssa.Range) *ssa.Next {
	for _, ref := range *rg.Referrers() {
		if nx, ok := ref.(*ssa.Next); ok {
			return nx
		}
	}
	return &ssa.Next{}
}

func constantLike(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Parameter:
		return true
	}
	return false
}

// ownStore: the store goes into a variable created in this iteration.
func ownStore(l *loop, st *ssa.Store) bool {
	if a, ok := base(st.Addr).(*ssa.Alloc); ok && l.body[a.Block()] {
		return true
	}
	return false
}

func elemObject(v ssa.Value, elem map[ssa.Value]bool) bool {
	if elem[v] {
		return true
	}
	if c, ok := v.(*ssa.Call); ok {
		// a fresh object or a copy of the element
		_ = c
		return true
	}
	return false
}

func derivedFrom(v ssa.Value, elem map[ssa.Value]bool, depth int) bool {
	if depth > 8 {
		return false
	}
	if elem[v] {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := v.(*ssa.Phi); ok {
		return false
	}
	var buf [16]*ssa.Value
	for _, op := range in.Operands(buf[:0]) {
		if op != nil && *op != nil && derivedFrom(*op, elem, depth+1) {
			return true
		}
	}
	return false
}

func describeAddr(v ssa.Value) string {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return "field " + fieldName(fa)
	}
	return v.Name()
}

// carriedOrder examines a variable carried from one iteration to the next.
func carriedOrder(r *repo, f *ssa.Function, l *loop, phi *ssa.Phi) string {
	t := phi.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return boolCarried(l, phi)
		}
		if b.Info()&types.IsInteger != 0 {
			if commutative(l, phi) {
				return ""
			}
			return "it accumulates a number that is not a plain sum"
		}
		if b.Info()&types.IsString != 0 {
			return "it builds text in map order"
		}
		return ""
	}
	if _, ok := t.(*types.Slice); ok {
		if why := sortedBeforeUse(r, f, phi, l); why != "" {
			return "it builds a list in map order" + why
		}
		return ""
	}
	// pointers and maps: a block of diagnostics collected in map order would show in the report
	if _, ok := t.(*types.Map); ok {
		return ""
	}
	for i, ed := range phi.Edges {
		if l.body[l.head.Preds[i]] && ed != ssa.Value(phi) {
			return "it carries " + phi.Type().String() + " from one element to the next"
		}
	}
	return ""
}

func boolCarried(l *loop, phi *ssa.Phi) string {
	// every change sets the same constant
	vals := map[string]bool{}
	var walk func(v ssa.Value, seen map[ssa.Value]bool) bool
	walk = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if v == ssa.Value(phi) || seen[v] {
			return true
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Const:
			vals[y.Value.String()] = true
			return true
		case *ssa.Phi:
			for _, ed := range y.Edges {
				if !walk(ed, seen) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, ed := range phi.Edges {
		if l.body[l.head.Preds[i]] && !walk(ed, map[ssa.Value]bool{}) {
			return "the last element decides a flag"
		}
	}
	if len(vals) > 1 {
		return "the last element decides a flag"
	}
	return ""
}

func commutative(l *loop, phi *ssa.Phi) bool {
	var walk func(v ssa.Value, seen map[ssa.Value]bool) bool
	walk = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if v == ssa.Value(phi) || seen[v] {
			return true
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.BinOp:
			if y.Op == token.ADD || y.Op == token.OR || y.Op == token.MUL {
				return walk(y.X, seen) || walk(y.Y, seen)
			}
			if y.Op == token.SUB {
				return walk(y.X, seen)
			}
		case *ssa.Phi:
			for _, ed := range y.Edges {
				if !walk(ed, seen) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, ed := range phi.Edges {
		if l.body[l.head.Preds[i]] && !walk(ed, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

// sortedBeforeUse: after the loop the list is sorted before anything else looks at its order.
func sortedBeforeUse(r *repo, f *ssa.Function, v ssa.Value, l *loop) string {
	// values that are the same list after the loop
	same := map[ssa.Value]bool{v: true}
	cells := map[*ssa.Alloc]bool{}
	changed := true
	for changed {
		changed = false
		for _, b := range f.Blocks {
			if l != nil && l.body[b] {
				continue
			}
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && same[st.Val] {
					// a variable captured by a function literal
					if cell, ok := st.Addr.(*ssa.Alloc); ok && !cells[cell] {
						cells[cell] = true
						changed = true
					}
				}
				val, ok := in.(ssa.Value)
				if !ok || same[val] {
					continue
				}
				switch y := in.(type) {
				case *ssa.UnOp:
					if cell, ok := y.X.(*ssa.Alloc); ok && cells[cell] {
						same[val] = true
						changed = true
					}
				case *ssa.Phi:
					for _, ed := range y.Edges {
						if same[ed] {
							same[val] = true
							changed = true
						}
					}
				case *ssa.MakeInterface:
					if same[y.X] {
						same[val] = true
						changed = true
					}
				case *ssa.ChangeType:
					if same[y.X] {
						same[val] = true
						changed = true
					}
				case *ssa.Call:
					if strings.HasPrefix(calleeName(y), "slices.Collect") && same[y.Call.Args[0]] {
						same[val] = true
						changed = true
					}
					if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && same[y.Call.Args[0]] {
						same[val] = true
						changed = true
					}
				}
			}
		}
	}
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	for s := range same {
		if s.Referrers() == nil {
			continue
		}
		for _, ref := range *s.Referrers() {
			if l != nil && l.body[ref.Block()] {
				continue
			}
			if rv, ok := ref.(ssa.Value); ok && same[rv] {
				continue
			}
			switch y := ref.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Store:
				if cell, ok := y.Addr.(*ssa.Alloc); ok && cells[cell] {
					continue
				}
			case *ssa.Call:
				if sortsArgument(r, y, s, 0) {
					sorts = append(sorts, y)
					continue
				}
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
			case *ssa.MakeClosure:
				continue // comparison functions
			}
			uses = append(uses, ref)
		}
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if before(s, u) {
				ok = true
			}
		}
		if !ok {
			return " which is used at " + r.pos(u.Pos()) + " without being sorted"
		}
	}
	return ""
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// sortsArgument: the call puts the given argument into a fixed order, in place or by returning it.
func sortsArgument(r *repo, c *ssa.Call, v ssa.Value, depth int) bool {
	n := calleeName(c)
	if i := strings.Index(n, "["); i > 0 {
		n = n[:i]
	}
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Sort", "sort.Stable", "slices.Sort", "slices.Sorted":
		return len(c.Call.Args) > 0 && c.Call.Args[0] == v
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		if len(c.Call.Args) < 2 || c.Call.Args[0] != v {
			return false
		}
		cmps := funcValues(c.Call.Args[1], 0)
		for _, cmp := range cmps {
			if !comparesWhole(cmp) {
				return false
			}
		}
		return len(cmps) > 0
	}
	s := c.Call.StaticCallee()
	if s == nil || s.Blocks == nil || !r.inModule(s) || depth > 4 {
		return false
	}
	for j, a := range c.Call.Args {
		if a != v || j >= len(s.Params) {
			continue
		}
		// the callee sorts its parameter before any other use
		if sortedBeforeUse(r, s, s.Params[j], nil) == "" && hasSortOf(r, s, s.Params[j], depth) {
			return true
		}
	}
	return false
}

// comparesWhole: the comparison function looks at the whole elements, so it leaves no ties open.
func comparesWhole(f *ssa.Function) bool {
	whole := func(v ssa.Value) bool {
		switch y := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.UnOp:
			_, ok := y.X.(*ssa.IndexAddr)
			return ok
		}
		return false
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		switch y := ret.Results[0].(type) {
		case *ssa.BinOp:
			if !whole(y.X) || !whole(y.Y) {
				return false
			}
		case *ssa.Call:
			for _, a := range y.Call.Args {
				if !whole(a) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// hasSortOf: somewhere in f the list p, or the variable it is kept in, is sorted.
func hasSortOf(r *repo, f *ssa.Function, p ssa.Value, depth int) bool {
	if p.Referrers() == nil || depth > 8 {
		return false
	}
	for _, ref := range *p.Referrers() {
		switch y := ref.(type) {
		case *ssa.Call:
			if sortsArgument(r, y, p, depth+1) {
				return true
			}
		case *ssa.MakeInterface:
			if hasSortOf(r, f, y, depth+1) {
				return true
			}
		case *ssa.ChangeType:
			if hasSortOf(r, f, y, depth+1) {
				return true
			}
		case *ssa.Store:
			if cell, ok := y.Addr.(*ssa.Alloc); ok && y.Val == p {
				for _, ref2 := range *cell.Referrers() {
					if u, ok := ref2.(*ssa.UnOp); ok && hasSortOf(r, f, u, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// orderedCall: a call inside the loop whose effects could show the order.
func orderedCall(r *repo, c *ssa.Call, depth int) string {
	n := calleeName(c)
	if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "(*os.File).Write") || strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*bufio.Writer).Write") {
		return "it writes text in map order"
	}
	s := c.Call.StaticCallee()
	if s == nil || !r.inModule(s) {
		return ""
	}
	// a callee that changes an object that is not the element
	for g := range r.reach(s) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if _, ok := base(st.Addr).(*ssa.Global); ok {
						if _, ok := st.Val.(*ssa.Const); !ok {
							return "it calls " + fname(s) + ", which changes shared state"
						}
					}
				}
				if cc, ok := in.(ssa.CallInstruction); ok {
					if p := calleeName(cc); strings.HasPrefix(p, "fmt.Print") || strings.HasPrefix(p, "fmt.Fprint") {
						return "it calls " + fname(s) + ", which prints"
					}
				}
			}
		}
	}
	return ""
}

// checkAddresses looks at what is handed to formatting functions as any.
func checkAddresses(r *repo, x *result, f *ssa.Function, c ssa.CallInstruction) {
	cc := c.Common()
	n := calleeName(c)
	s := cc.StaticCallee()
	formats := strings.HasPrefix(n, "fmt.S") || strings.HasPrefix(n, "fmt.P") || strings.HasPrefix(n, "fmt.F") || strings.HasPrefix(n, "fmt.E") || strings.HasPrefix(n, "log.")
	if !formats && s != nil && r.inModule(s) && s.Signature.Variadic() {
		last := s.Signature.Params().At(s.Signature.Params().Len() - 1).Type().(*types.Slice).Elem()
		if it, ok := last.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			formats = true
		}
	}
	if !formats || len(cc.Args) == 0 {
		return
	}
	for _, a := range cc.Args {
		if k, ok := a.(*ssa.Const); ok && strings.Contains(n, "f") && k.Value != nil && strings.Contains(k.Value.String(), "%p") {
			x.fail("address", fname(f)+" formats %p", r.pos(c.Pos()), "a format prints an address")
		}
	}
	for _, v := range variadicElems(cc.Args[len(cc.Args)-1]) {
		mi, ok := v.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		x.oblige("address")
		if t := printsAddress(mi.X.Type(), 0, map[types.Type]bool{}); t != "" {
			x.fail("address", fname(f)+" formats "+mi.X.Type().String(), r.pos(c.Pos()), "a value of type %s is formatted, which prints the address of %s", mi.X.Type(), t)
		}
	}
}

func variadicElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, ref2 := range *ia.Referrers() {
				if st, ok := ref2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// printsAddress: formatting a value of this type shows an address. At the top level fmt follows one
// pointer to a struct, array, slice or map.
func printsAddress(t types.Type, depth int, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	if hasStringMethod(t) {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if depth > 0 {
			return t.String()
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			return printsAddress(u.Elem(), depth+1, seen)
		}
		return t.String()
	case *types.Chan, *types.Signature:
		return t.String()
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := printsAddress(u.Field(i).Type(), depth+1, seen); s != "" {
				return s
			}
		}
	case *types.Slice:
		return printsAddress(u.Elem(), depth+1, seen)
	case *types.Array:
		return printsAddress(u.Elem(), depth+1, seen)
	case *types.Map:
		if s := printsAddress(u.Key(), depth+1, seen); s != "" {
			return s
		}
		return printsAddress(u.Elem(), depth+1, seen)
	}
	return ""
}

func hasStringMethod(t types.Type) bool {
	for _, m := range []string{"String", "Error"} {
		if obj, _, _ := types.LookupFieldOrMethod(t, false, nil, m); obj != nil {
			if fn, ok := obj.(*types.Func); ok && fn.Type().(*types.Signature).Params().Len() == 0 {
				return true
			}
		}
	}
	return false
}

// checkSort: sorts of whole strings or numbers are total; a sort by a function must not leave ties open
// unless it is stable on a list whose order is itself fixed.
func checkSort(r *repo, x *result, f *ssa.Function, c ssa.CallInstruction) {
	n := calleeName(c)
	if i := strings.Index(n, "["); i > 0 {
		n = n[:i]
	}
	switch n {
	case "sort.Strings", "sort.Ints", "slices.Sort", "slices.Sorted", "sort.SliceStable", "sort.Stable", "slices.SortStableFunc":
		x.oblige("sortorder")
	case "sort.Slice", "sort.Sort", "slices.SortFunc":
		x.oblige("sortorder")
		if len(c.Common().Args) > 0 {
			t := c.Common().Args[0].Type()
			if mi, ok := c.Common().Args[0].(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			if sl, ok := t.Underlying().(*types.Slice); ok {
				if _, ok := sl.Elem().Underlying().(*types.Basic); ok {
					return
				}
			}
		}
		x.fail("sortorder", fname(f)+" "+n, r.pos(c.Pos()), "%s on compound elements is not stable: elements that compare equal come out in any order", n)
	}
}
