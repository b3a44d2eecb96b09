package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{
		id:        "C09",
		technique: "abstract execution of the parsing loops over classes of words (known keyword, unknown keyword, other word, bracketed or quoted text), on SSA",
		assumptions: []string{
			"the words of a block are the text and blocktype of the blocks the tokenizer builds",
			"an error that is added to a diagnostics block reaches the user (property C01)",
		},
		run: checkC09,
	})
}

// word classes and abstract values of the parsing code
type wkind int

const (
	wTop wkind = iota
	wStr
	wUnknownKey // a word that starts with ':' and is no known keyword
	wData       // a word that equals no constant and does not start with ':'
	wBool
	wInt
	wElem // the textblock whose fate is followed
	wList // its child blocks
	wHead // its first child block
	wTuple
)

type wval struct {
	k     wkind
	s     string
	n     int64
	tuple []wval
}

func (v wval) String() string {
	switch v.k {
	case wTop:
		return "?"
	case wStr:
		return fmt.Sprintf("%q", v.s)
	case wUnknownKey:
		return "unknown keyword"
	case wData:
		return "word"
	case wBool, wInt:
		return fmt.Sprint(v.n)
	case wElem:
		return "block"
	case wList:
		return "children"
	case wHead:
		return "head"
	}
	var l []string
	for _, t := range v.tuple {
		l = append(l, t.String())
	}
	return "(" + strings.Join(l, ",") + ")"
}

func wbool(b bool) wval {
	if b {
		return wval{k: wBool, n: 1}
	}
	return wval{k: wBool}
}

// wclass is one kind of block the tokenizer can hand to a parsing function.
type wclass struct {
	bt   string
	word wval
	head wval
}

func (c wclass) String() string {
	switch {
	case c.bt == "text":
		return c.word.String()
	case c.head.k == wStr:
		return fmt.Sprintf("a %s block that starts with %s", c.bt, c.head)
	}
	return fmt.Sprintf("a %s block", c.bt)
}

type wordParser struct {
	r        *repo
	x        *result
	enums    map[*types.Var]bool
	must     map[*ssa.Function]int
	tb       types.Type
	adders   map[*ssa.Function]bool
	sums     map[string][]wout
	visiting map[string]bool
	lives    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	loops    map[*ssa.Function]map[*ssa.BasicBlock]*loop
	block    types.Type
	msg      types.Type
	cut      int
}

// wout is one way an abstract execution ends.
type wout struct {
	err    bool
	used   bool // the word or block went into a definition
	effect bool // something was recorded
	enum   string
	exit   bool
	state  string
	vals   []wval
}

func (o wout) key() string {
	return fmt.Sprint(o.err, o.used, o.effect, o.enum, o.exit, o.state, o.vals)
}

type wpath struct {
	env    map[ssa.Value]wval
	taint  map[ssa.Value]bool // depends on the followed block
	keep   map[ssa.Value]bool // the followed block itself
	err    bool
	used   bool
	effect bool
	enum   string
}

func newPath() *wpath {
	return &wpath{env: map[ssa.Value]wval{}, taint: map[ssa.Value]bool{}, keep: map[ssa.Value]bool{}}
}

func (p *wpath) clone() *wpath {
	q := *p
	q.env = make(map[ssa.Value]wval, len(p.env))
	for k, v := range p.env {
		q.env[k] = v
	}
	q.taint = make(map[ssa.Value]bool, len(p.taint))
	for k, v := range p.taint {
		q.taint[k] = v
	}
	return &q
}

// prune forgets what no later instruction can look at.
func (p *wpath) prune(live map[ssa.Value]bool) {
	for k, v := range p.env {
		if v.k == wTop || !live[k] && !p.keep[k] {
			delete(p.env, k)
		}
	}
	for k := range p.taint {
		if !live[k] && !p.keep[k] {
			delete(p.taint, k)
		}
	}
	if p.err {
		p.used, p.effect, p.enum = true, true, ""
	}
}

func (p *wpath) key() string {
	var l []string
	for k, v := range p.env {
		if v.k != wTop {
			l = append(l, k.Name()+"="+v.String())
		}
	}
	for k := range p.taint {
		l = append(l, k.Name()+"!")
	}
	sort.Strings(l)
	return fmt.Sprint(p.err, p.used, p.effect, p.enum, l)
}

// liveness: the values of f that are looked at in or after each block, also by way of other values.
func (w *wordParser) liveness(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := w.lives[f]; ok {
		return l
	}
	deps := map[ssa.Value]map[ssa.Value]bool{}
	var depsOf func(v ssa.Value) map[ssa.Value]bool
	depsOf = func(v ssa.Value) map[ssa.Value]bool {
		if d, ok := deps[v]; ok {
			return d
		}
		d := map[ssa.Value]bool{v: true}
		deps[v] = d
		if _, ok := v.(*ssa.Phi); ok {
			return d
		}
		if in, ok := v.(ssa.Instruction); ok {
			var buf [16]*ssa.Value
			for _, op := range in.Operands(buf[:0]) {
				if op != nil && *op != nil {
					for k := range depsOf(*op) {
						d[k] = true
					}
				}
			}
		}
		return d
	}
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		use[b] = map[ssa.Value]bool{}
		live[b] = map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			var buf [16]*ssa.Value
			for _, op := range in.Operands(buf[:0]) {
				if op != nil && *op != nil {
					for k := range depsOf(*op) {
						use[b][k] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			add := func(v ssa.Value) {
				if in, ok := v.(ssa.Instruction); ok && in.Block() == b {
					if _, ok := v.(*ssa.Phi); !ok {
						return // computed anew here
					}
				}
				if !live[b][v] {
					live[b][v] = true
					changed = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for _, s := range b.Succs {
				for v := range live[s] {
					if in, ok := v.(ssa.Instruction); ok && in.Block() == s {
						if _, ok := v.(*ssa.Phi); ok {
							continue
						}
					}
					add(v)
				}
				n := predIndex(s, b)
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k := range depsOf(phi.Edges[n]) {
						add(k)
					}
				}
			}
		}
	}
	w.lives[f] = live
	return live
}

func isPtrTo(t types.Type, n types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && n != nil && types.Identical(p.Elem(), n)
}

// errorAdders are the functions that put an error into the diagnostics block they are given.
func errorAdders(r *repo) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	block := r.typ("vxmsgblock")
	for _, f := range r.funcs {
		takes := false
		for _, p := range f.Params[:min(1, len(f.Params))] {
			if isPtrTo(p.Type(), block) {
				takes = true
			}
		}
		if !takes || len(f.Params) < 2 || isPtrTo(f.Params[1].Type(), block) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isPtrTo(fa.X.Type(), block) && fieldName(fa) == "iserror" {
						if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) {
							out[f] = true
						}
					}
				}
			}
		}
	}
	return out
}

// mustError: every path through f adds an error.
func (w *wordParser) mustError(f *ssa.Function) bool {
	if w.adders[f] {
		return true
	}
	if f.Blocks == nil {
		return false
	}
	switch w.must[f] {
	case 1:
		return false
	case 2:
		return true
	}
	w.must[f] = 1
	seen := map[*ssa.BasicBlock]bool{}
	var clean func(b *ssa.BasicBlock) bool // a return is reachable without an error
	clean = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if s := c.Common().StaticCallee(); s != nil && w.r.inModule(s) && w.mustError(s) {
					return false
				}
			}
			if _, ok := in.(*ssa.Return); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if clean(s) {
				return true
			}
		}
		return false
	}
	if !clean(f.Blocks[0]) {
		w.must[f] = 2
		return true
	}
	return false
}

// spread: what in computes depends on the followed block, diagnostics left aside.
func (w *wordParser) spread(p *wpath, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		if p.taint[x.Val] && !w.bookkeeping(x.Addr) {
			p.taint[base(x.Addr)] = true
		}
		return
	case *ssa.Phi:
		return
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return
		}
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok && stateType(x.Type()) {
			return
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return
		}
	case *ssa.FieldAddr:
		if w.bookkeeping(x) {
			return
		}
	}
	v, ok := in.(ssa.Value)
	if !ok || isPtrTo(v.Type(), w.block) || isPtrTo(v.Type(), w.msg) {
		return
	}
	var buf [16]*ssa.Value
	for _, op := range in.Operands(buf[:0]) {
		if op != nil && *op != nil && p.taint[*op] {
			p.taint[v] = true
			return
		}
	}
}

// bookkeeping: the address is one where a definition remembers its source block, or the text of a message.
func (w *wordParser) bookkeeping(addr ssa.Value) bool {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	fv := fieldVar(fa.X.Type(), fa.Field)
	if fv == nil {
		return false
	}
	if isPtrTo(fv.Type(), w.tb) && !isPtrTo(fa.X.Type(), w.tb) {
		return true
	}
	return isPtrTo(fa.X.Type(), w.msg) || isPtrTo(fa.X.Type(), w.block)
}

func (w *wordParser) eval(p *wpath, c wclass, v ssa.Value, depth int) wval {
	if val, ok := p.env[v]; ok {
		return val
	}
	if depth > 12 {
		return wval{}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return wval{}
		}
		switch x.Value.Kind() {
		case constant.String:
			return wval{k: wStr, s: constant.StringVal(x.Value)}
		case constant.Bool:
			return wbool(constant.BoolVal(x.Value))
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				return wval{k: wInt, n: n}
			}
		}
	case *ssa.ChangeType:
		return w.eval(p, c, x.X, depth+1)
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			if a := w.eval(p, c, x.X, depth+1); a.k == wBool {
				return wbool(a.n == 0)
			}
		case token.MUL:
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				o := w.eval(p, c, a.X, depth+1)
				switch o.k {
				case wElem:
					switch fieldName(a) {
					case "text":
						return c.word
					case "blocktype":
						return wval{k: wStr, s: c.bt}
					case "listtextblock":
						return wval{k: wList}
					}
				case wHead:
					if fieldName(a) == "text" {
						return c.head
					}
				}
			case *ssa.IndexAddr:
				if l := w.eval(p, c, a.X, depth+1); l.k == wList {
					if i := w.eval(p, c, a.Index, depth+1); i.k == wInt && i.n == 0 {
						return wval{k: wHead}
					}
				}
			}
		}
	case *ssa.BinOp:
		a, b := w.eval(p, c, x.X, depth+1), w.eval(p, c, x.Y, depth+1)
		switch x.Op {
		case token.EQL, token.NEQ:
			if r := wequal(a, b); r.k == wBool {
				return wbool((r.n == 1) == (x.Op == token.EQL))
			}
		case token.ADD:
			if a.k == wInt && b.k == wInt {
				return wval{k: wInt, n: min(a.n+b.n, 2)}
			}
			if a.k == wStr && b.k == wStr && len(a.s)+len(b.s) <= 24 {
				return wval{k: wStr, s: a.s + b.s}
			}
		}
	case *ssa.Extract:
		if t := w.eval(p, c, x.Tuple, depth+1); t.k == wTuple && x.Index < len(t.tuple) {
			return t.tuple[x.Index]
		}
	case *ssa.Lookup:
		k := w.eval(p, c, x.Index, depth+1)
		if k.k == wStr {
			if words, ok := w.wordSet(x.X); ok && !words[k.s] {
				k = wval{k: wUnknownKey}
			} else if ok && x.CommaOk {
				return wval{k: wTuple, tuple: []wval{{}, wbool(true)}}
			} else if b, isbasic := x.Type().Underlying().(*types.Basic); ok && isbasic && b.Info()&types.IsBoolean != 0 {
				return wbool(true)
			}
		}
		if k.k == wUnknownKey || k.k == wData {
			if x.CommaOk {
				return wval{k: wTuple, tuple: []wval{{}, wbool(false)}}
			}
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				return wbool(false)
			}
		}
	case *ssa.Call:
		return w.evalCall(p, c, x, depth)
	}
	return wval{}
}

func (w *wordParser) evalCall(p *wpath, c wclass, x *ssa.Call, depth int) wval {
	s := x.Call.StaticCallee()
	if s == nil {
		return wval{}
	}
	if s.Pkg != nil && s.Pkg.Pkg.Path() == "strings" && s.Name() == "HasPrefix" {
		a, b := w.eval(p, c, x.Call.Args[0], depth+1), w.eval(p, c, x.Call.Args[1], depth+1)
		if b.k == wStr {
			switch a.k {
			case wStr:
				return wbool(strings.HasPrefix(a.s, b.s))
			case wUnknownKey:
				if b.s == ":" || b.s == "" {
					return wbool(true)
				}
			case wData:
				if strings.HasPrefix(b.s, ":") {
					return wbool(false)
				}
			}
		}
		return wval{}
	}
	if word, list, ok := membership(x, s); ok {
		switch a := w.eval(p, c, word, depth+1); a.k {
		case wUnknownKey, wData:
			return wbool(false)
		case wStr:
			if words, ok := w.wordSet(list); ok {
				return wbool(words[a.s])
			}
		}
		return wval{}
	}
	// a wrapper of one expression
	if w.r.inModule(s) && len(s.Blocks) == 1 {
		if ret, ok := s.Blocks[0].Instrs[len(s.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
			q := newPath()
			for i, pr := range s.Params {
				q.env[pr] = w.eval(p, c, x.Call.Args[i], depth+1)
			}
			return w.eval(q, c, ret.Results[0], depth+1)
		}
	}
	return wval{}
}

// membership: the call asks whether a list of words contains a word.
func membership(x *ssa.Call, s *ssa.Function) (word, list ssa.Value, ok bool) {
	if len(x.Call.Args) != 2 {
		return nil, nil, false
	}
	if o := s.Origin(); o != nil && o.Pkg != nil && o.Pkg.Pkg.Path() == "slices" && o.Name() == "Contains" {
		return x.Call.Args[1], x.Call.Args[0], true
	}
	if r := s.Signature.Results(); r.Len() != 1 || !types.Identical(r.At(0).Type(), types.Typ[types.Bool]) {
		return nil, nil, false
	}
	wi := -1
	for i, p := range s.Params {
		if basicString(p.Type()) {
			wi = i
		}
	}
	if wi < 0 {
		return nil, nil, false
	}
	sl, isSlice := s.Params[1-wi].Type().Underlying().(*types.Slice)
	if !isSlice || !basicString(sl.Elem()) {
		return nil, nil, false
	}
	for _, l := range naturalLoops(s) {
		for _, e := range l.elem {
			for _, ref := range *e.Referrers() {
				if bo, ok := ref.(*ssa.BinOp); ok && bo.Op == token.EQL && (bo.X == s.Params[wi] || bo.Y == s.Params[wi]) {
					return x.Call.Args[wi], x.Call.Args[1-wi], true
				}
			}
		}
	}
	return nil, nil, false
}

// wordSet: the words of a list or the keys of a table that is written out in the source.
func (w *wordParser) wordSet(v ssa.Value) (map[string]bool, bool) {
	out := map[string]bool{}
	add := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.String {
			return false
		}
		out[constant.StringVal(c.Value)] = true
		return true
	}
	var collect func(v ssa.Value) bool
	collect = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			if !ok || g.Pkg == nil {
				return false
			}
			init := g.Pkg.Func("init")
			found := false
			for i, f := range append([]*ssa.Function{init}, w.r.funcs...) {
				if f == nil || i > 0 && f == init {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
							if f != init || found || !collect(st.Val) {
								return false
							}
							found = true
						}
					}
				}
			}
			return found
		case *ssa.MakeMap:
			for _, ref := range *x.Referrers() {
				if u, ok := ref.(*ssa.MapUpdate); ok && !add(u.Key) {
					return false
				}
			}
			return true
		case *ssa.Slice:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, ref := range *al.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, u := range *ia.Referrers() {
						if st, ok := u.(*ssa.Store); ok && !add(st.Val) {
							return false
						}
					}
				}
			}
			return true
		}
		return false
	}
	ok := collect(v)
	return out, ok && len(out) > 0
}

func wequal(a, b wval) wval {
	if a.k > b.k {
		a, b = b, a
	}
	switch {
	case a.k == wStr && b.k == wStr:
		return wbool(a.s == b.s)
	case a.k == wStr && (b.k == wUnknownKey || b.k == wData):
		return wbool(false)
	case a.k == wTop && b.k == wUnknownKey:
		return wbool(false) // it equals no word the compiler knows
	case a.k == wUnknownKey && b.k == wData:
		return wbool(false)
	case a.k == wBool && b.k == wBool, a.k == wInt && b.k == wInt && (a.n < 2 || b.n < 2):
		return wbool(a.n == b.n)
	}
	return wval{}
}

// run executes f abstractly from block b (entered from prev) until it returns or, when head is given,
// until the loop comes back to its head or is left.
func (w *wordParser) run(f *ssa.Function, l *loop, start, prev *ssa.BasicBlock, p *wpath, c wclass, depth int) []wout {
	outs := map[string]wout{}
	seen := map[string]bool{}
	live := w.liveness(f)
	var walk func(b, prev *ssa.BasicBlock, p *wpath, first bool)
	finish := func(p *wpath, exit bool, vals []wval, state string) {
		o := wout{err: p.err, used: p.used, effect: p.effect, enum: p.enum, exit: exit, vals: vals, state: state}
		outs[o.key()] = o
	}
	walk = func(b, prev *ssa.BasicBlock, p *wpath, first bool) {
		if l != nil && !first {
			if b == l.head {
				// one iteration done: the state it leaves behind
				st := map[string]wval{}
				for i, pb := range b.Preds {
					if pb != prev {
						continue
					}
					for _, in := range b.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if stateType(phi.Type()) {
							st[phi.Name()] = w.eval(p, c, phi.Edges[i], 0)
						} else if p.taint[phi.Edges[i]] {
							p.used = true
						}
					}
					break
				}
				finish(p, false, nil, encodeState(st))
				return
			}
			if !l.body[b] {
				finish(p, true, nil, "")
				return
			}
		}
		// phis
		if !first || prev != nil {
			idx := predIndex(b, prev)
			nv := map[ssa.Value]wval{}
			nt := map[ssa.Value]bool{}
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if idx >= 0 {
					nv[phi] = w.eval(p, c, phi.Edges[idx], 0)
					nt[phi] = p.taint[phi.Edges[idx]]
				}
			}
			for k, v := range nv {
				p.env[k] = v
			}
			for k, v := range nt {
				if v {
					p.taint[k] = true
				} else {
					delete(p.taint, k)
				}
			}
		}
		p.prune(live[b])
		if inner := w.loopsOf(f)[b]; inner != nil && inner != l {
			// the child blocks of the followed block are gone through
			for _, o := range inner.over {
				if w.eval(p, c, o, 0).k == wList {
					p.used = true
				}
			}
		}
		if len(seen) > 20000 {
			w.cut++
			return
		}
		k := fmt.Sprint(b.Index, " ", p.key())
		if seen[k] {
			return
		}
		seen[k] = true
		w.steps(f, l, b, 0, p, c, depth, func(p *wpath, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Return:
				var vals []wval
				for _, v := range x.Results {
					vals = append(vals, w.eval(p, c, v, 0))
					if p.taint[v] {
						// what depends on the word is handed back
						if depth == 0 {
							p.used = true
						}
					}
				}
				finish(p, true, vals, "")
			case *ssa.Panic:
			case *ssa.If:
				v := w.eval(p, c, x.Cond, 0)
				if v.k == wBool {
					if v.n == 1 {
						walk(b.Succs[0], b, p, false)
					} else {
						walk(b.Succs[1], b, p, false)
					}
					return
				}
				q := p.clone()
				if l == nil && depth == 0 {
					// nothing is lost of a block that has no children
					switch w.emptyTest(p, c, x.Cond) {
					case 1:
						q.used = true
					case 2:
						p.used = true
					}
				}
				walk(b.Succs[0], b, q, false)
				walk(b.Succs[1], b, p, false)
			case *ssa.Jump:
				walk(b.Succs[0], b, p, false)
			}
		})
	}
	walk(start, prev, p, true)
	var list []wout
	var keys []string
	for k := range outs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		list = append(list, outs[k])
	}
	return list
}

// emptyTest: the condition asks whether the followed block has children; 1 when it holds without, 2 when with.
func (w *wordParser) emptyTest(p *wpath, c wclass, cond ssa.Value) int {
	bo, ok := cond.(*ssa.BinOp)
	if !ok || !isZero(bo.Y) {
		return 0
	}
	call, ok := bo.X.(*ssa.Call)
	if !ok {
		return 0
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" || w.eval(p, c, call.Call.Args[0], 0).k != wList {
		return 0
	}
	switch bo.Op {
	case token.EQL, token.LEQ:
		return 1
	case token.NEQ, token.GTR:
		return 2
	}
	return 0
}

func (w *wordParser) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*loop {
	m, ok := w.loops[f]
	if !ok {
		m = map[*ssa.BasicBlock]*loop{}
		for _, l := range naturalLoops(f) {
			m[l.head] = l
		}
		w.loops[f] = m
	}
	return m
}

func stateType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsString|types.IsBoolean|types.IsInteger) != 0
}

func encodeState(m map[string]wval) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v.String())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// steps executes the instructions of b from index i; end is called with the terminator, once per outcome
// of the calls in between.
func (w *wordParser) steps(f *ssa.Function, l *loop, b *ssa.BasicBlock, i int, p *wpath, c wclass, depth int, end func(*wpath, ssa.Instruction)) {
	for ; i < len(b.Instrs); i++ {
		w.spread(p, b.Instrs[i])
		switch x := b.Instrs[i].(type) {
		case *ssa.Return, *ssa.Panic, *ssa.If, *ssa.Jump:
			end(p, x)
			return
		case *ssa.Store:
			w.store(p, c, x, depth)
		case *ssa.MapUpdate:
			p.effect = true
			if p.taint[x.Value] || p.taint[x.Key] {
				p.used = true
			}
		case *ssa.Lookup:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				continue // a set of words
			}
			if g, ok := x.X.(*ssa.UnOp); ok {
				if _, ok := g.X.(*ssa.Global); ok {
					if k := w.eval(p, c, x.Index, 0); k.k == wUnknownKey || k.k == wData {
						p.enum = g.X.Name()
					}
				}
			}
		case *ssa.Call:
			if outs := w.call(p, c, x, depth); outs != nil {
				for n, o := range outs {
					q := p
					if n < len(outs)-1 {
						q = p.clone()
					}
					q.err = q.err || o.err
					q.used = q.used || o.used
					q.effect = q.effect || o.effect
					if o.enum != "" {
						q.enum = o.enum
					}
					if len(o.vals) == 1 {
						q.env[x] = o.vals[0]
					} else if len(o.vals) > 1 {
						q.env[x] = wval{k: wTuple, tuple: o.vals}
					}
					w.steps(f, l, b, i+1, q, c, depth, end)
				}
				return
			}
		}
	}
}

func (w *wordParser) store(p *wpath, c wclass, st *ssa.Store, depth int) {
	if w.bookkeeping(st.Addr) {
		return
	}
	fa, isField := st.Addr.(*ssa.FieldAddr)
	if _, ok := st.Addr.(*ssa.IndexAddr); ok {
		return // an argument list being built
	}
	if depth > 0 && !fromParam(st.Addr) {
		return
	}
	if isField {
		p.effect = true
		if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil && w.enums[fv] {
			if v := w.eval(p, c, st.Val, 0); v.k == wUnknownKey || v.k == wData {
				p.enum = fv.Name()
			}
		}
	}
	if p.taint[st.Val] {
		p.used = true
	}
}

func fromParam(addr ssa.Value) bool {
	for i := 0; i < 20; i++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.UnOp:
			addr = x.X
		case *ssa.Parameter, *ssa.Global:
			return true
		default:
			return false
		}
	}
	return false
}

// call: what calling x can do; nil when it needs no modelling.
func (w *wordParser) call(p *wpath, c wclass, x *ssa.Call, depth int) []wout {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			p.effect = true
			for _, a := range x.Call.Args[1:] {
				if p.taint[a] {
					p.used = true
				}
			}
		}
		return nil
	}
	s := x.Call.StaticCallee()
	if s == nil || !w.r.inModule(s) || s.Blocks == nil {
		return nil
	}
	if w.mustError(s) {
		p.err = true
		return nil
	}
	args := x.Call.Args
	q := newPath()
	var roots []ssa.Value
	key := s.String() + c.String()
	interesting := false
	for i, a := range args {
		v := w.eval(p, c, a, 0)
		q.env[s.Params[i]] = v
		key += "|" + v.String()
		if p.taint[a] {
			roots = append(roots, s.Params[i])
			q.taint[s.Params[i]] = true
			key += "!"
		}
		switch v.k {
		case wUnknownKey, wData, wElem, wList, wHead:
			interesting = true
		}
	}
	if !interesting || len(s.Blocks) == 1 && !storesAnything(s) {
		return nil
	}
	if depth >= 3 || w.visiting[key] || len(roots) == 0 {
		if len(roots) > 0 {
			p.used = true
		}
		return nil
	}
	if o, ok := w.sums[key]; ok {
		return o
	}
	w.visiting[key] = true
	outs := w.run(s, nil, s.Blocks[0], nil, q, c, depth+1)
	delete(w.visiting, key)
	if outs == nil {
		outs = []wout{}
	}
	w.sums[key] = outs
	if len(outs) == 0 {
		return nil
	}
	return outs
}

func storesAnything(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Store); ok {
				return true
			}
		}
	}
	return false
}

func checkC09(r *repo, x *result) {
	x.rule("reject", "abstract execution of every parsing function: a word that is no known keyword, and a block of any kind except a comment, is on every path either put into the definition being built or followed by an error")
	x.rule("acted", "every keyword a parsing loop accepts changes the definition, changes how the next word is read, or is an error; the word read next for it is put into the definition or is an error")
	x.rule("enum", "a word stored into an attribute that is compared with fixed keywords, or looked up in a fixed table, is first matched against them, and an error is added when it does not match")
	x.rule("open", "text that ends inside a quote, comment or bracket adds an error")
	from := r.reach(r.spkgs[r.main].Func("main"))
	w := &wordParser{r: r, x: x, must: map[*ssa.Function]int{}, tb: r.typ("vxtextblock"), adders: errorAdders(r),
		sums: map[string][]wout{}, visiting: map[string]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, block: r.typ("vxmsgblock"), msg: r.typ("vxmsg"),
		lives: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	if w.tb == nil {
		x.fail("reject", "vxtextblock", "-", "the block type of the tokenizer is gone")
		return
	}
	w.enums = keywordFields(r)
	for v := range w.enums {
		x.obligeOnce("enum", v.Name())
	}
	bts := blockTypes(r, w.tb)
	x.analysed["block kinds"] = len(bts)
	x.analysed["error functions"] = len(w.adders)
	for _, f := range r.funcs {
		if _, ok := from[f]; !ok {
			continue
		}
		w.function(f, bts)
	}
	w.openText(from)
	x.analysed["explorations cut short"] = w.cut
	x.atLeast("reject", 40)
	x.atLeast("acted", 40)
	x.atLeast("enum", 2)
	x.atLeast("open", 4)
}

// keywordFields are the string attributes compared with constants that start with ':'.
func keywordFields(r *repo) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	command, library := r.typ("vxcommand"), r.typ("vxlibrary")
	for _, f := range r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
					continue
				}
				a, k := bo.X, bo.Y
				if _, ok := a.(*ssa.Const); ok {
					a, k = k, a
				}
				c, ok := k.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.String {
					continue
				}
				if s := constant.StringVal(c.Value); len(s) < 2 || s[0] != ':' {
					continue
				}
				u, ok := a.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if isPtrTo(fa.X.Type(), command) || isPtrTo(fa.X.Type(), library) {
						out[fieldVar(fa.X.Type(), fa.Field)] = true
					}
				}
			}
		}
	}
	return out
}

// blockTypes are the kinds of block the tokenizer produces, comments left out.
func blockTypes(r *repo, tb types.Type) []string {
	set := map[string]bool{}
	for _, f := range r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isPtrTo(fa.X.Type(), tb) || fieldName(fa) != "blocktype" {
					continue
				}
				for _, s := range stringConsts(st.Val, 0) {
					set[s] = true
				}
			}
		}
	}
	var out []string
	for s := range set {
		if s != "" && !strings.HasPrefix(s, "/") {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func stringConsts(v ssa.Value, depth int) []string {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}
		}
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			out = append(out, stringConsts(e, depth+1)...)
		}
		return out
	}
	return nil
}

// function follows each block kind through f, when f looks at the words of a block.
func (w *wordParser) function(f *ssa.Function, bts []string) {
	for _, pr := range f.Params {
		if isPtrTo(pr.Type(), w.tb) && w.reports(f) && w.looksAt(f, pr) {
			w.param(f, pr, bts)
		}
	}
	for _, b := range f.Blocks {
		l := w.loopsOf(f)[b]
		if l == nil {
			continue
		}
		var elems []ssa.Value
		for _, e := range l.elem {
			if isPtrTo(e.Type(), w.tb) && currentElem(l, e) {
				elems = append(elems, e)
			}
		}
		looks := false
		for _, e := range elems {
			if w.looksAt(f, e) {
				looks = true
			}
		}
		if looks {
			w.loop(f, l, elems, bts)
		}
	}
}

// reports: f hands diagnostics to its caller.
func (w *wordParser) reports(f *ssa.Function) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isPtrTo(res.At(i).Type(), w.block) {
			return true
		}
	}
	for _, p := range f.Params {
		if isPtrTo(p.Type(), w.block) {
			return true
		}
	}
	return false
}

// currentElem: e is the element the loop is at, not one next to it.
func currentElem(l *loop, e ssa.Value) bool {
	u, ok := e.(*ssa.UnOp)
	if !ok {
		return true
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return true
	}
	in, ok := ia.Index.(ssa.Instruction)
	return ok && in.Block() == l.head
}

// looksAt: text or kind of the block (or text of its first child) is compared with a constant.
func (w *wordParser) looksAt(f *ssa.Function, e ssa.Value) bool {
	words := map[ssa.Value]bool{}
	for _, ref := range *e.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, u := range *fa.Referrers() {
			ld, ok := u.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			words[ld] = true
			if fieldName(fa) == "listtextblock" {
				for _, ix := range *ld.Referrers() {
					ia, ok := ix.(*ssa.IndexAddr)
					if !ok || !isConst(ia.Index) {
						continue
					}
					for _, hu := range *ia.Referrers() {
						h, ok := hu.(*ssa.UnOp)
						if !ok {
							continue
						}
						for _, hf := range *h.Referrers() {
							if hfa, ok := hf.(*ssa.FieldAddr); ok && fieldName(hfa) == "text" {
								for _, hl := range *hfa.Referrers() {
									if v, ok := hl.(*ssa.UnOp); ok {
										words[v] = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for v := range words {
		for _, ref := range *v.Referrers() {
			switch bo := ref.(type) {
			case *ssa.BinOp:
				if (bo.Op == token.EQL || bo.Op == token.NEQ) && (isConst(bo.X) || isConst(bo.Y)) {
					return true
				}
			}
		}
	}
	return false
}

func (w *wordParser) constsOf(f *ssa.Function) []string {
	set := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						set[constant.StringVal(c.Value)] = true
					}
				}
			}
			if lk, ok := in.(*ssa.Lookup); ok {
				if words, ok := w.wordSet(lk.X); ok {
					for k := range words {
						set[k] = true
					}
				}
			}
			if c, ok := in.(*ssa.Call); ok {
				if s := c.Call.StaticCallee(); s != nil && (w.r.inModule(s) || s.Origin() != nil) && s != f {
					if _, list, ok := membership(c, s); ok {
						words, _ := w.wordSet(list)
						for k := range words {
							set[k] = true
						}
					}
					// keywords matched by a helper that is given a word
					for i, a := range c.Call.Args {
						if basicString(a.Type()) && i < len(s.Params) {
							for _, ref := range *s.Params[i].Referrers() {
								if bo, ok := ref.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
									for _, v := range []ssa.Value{bo.X, bo.Y} {
										if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
											set[constant.StringVal(c.Value)] = true
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func basicString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (w *wordParser) classes(f *ssa.Function, bts []string) []wclass {
	var out []wclass
	ks := w.constsOf(f)
	for _, bt := range bts {
		switch bt {
		case "text":
			for _, k := range ks {
				if strings.HasPrefix(k, ":") {
					out = append(out, wclass{bt: bt, word: wval{k: wStr, s: k}, head: wval{}})
				}
			}
			out = append(out, wclass{bt: bt, word: wval{k: wUnknownKey}})
			out = append(out, wclass{bt: bt, word: wval{k: wData}})
		default:
			out = append(out, wclass{bt: bt, word: wval{k: wData}, head: wval{k: wData}})
			if bt == "(" {
				for _, k := range ks {
					if k != "" && !strings.HasPrefix(k, ":") && len(k) > 2 {
						out = append(out, wclass{bt: bt, word: wval{k: wData}, head: wval{k: wStr, s: k}})
					}
				}
			}
		}
	}
	return out
}

func (w *wordParser) param(f *ssa.Function, pr *ssa.Parameter, bts []string) {
	for _, c := range w.classes(f, bts) {
		if c.head.k == wStr || c.word.k == wStr {
			continue
		}
		w.x.oblige("reject")
		p := newPath()
		p.env[pr] = wval{k: wElem}
		p.taint[pr] = true
		for _, o := range w.run(f, nil, f.Blocks[0], nil, p, c, 0) {
			if !o.err && !o.used {
				w.x.fail("reject", fname(f)+" "+c.String(), w.r.pos(f.Pos()),
					"%s can finish without an error although it was given %s and made nothing of it", fname(f), c)
			}
		}
	}
}

// initialStates are the values the state variables of the loop have when it is entered.
func (w *wordParser) initialStates(l *loop) []map[*ssa.Phi]wval {
	states := []map[*ssa.Phi]wval{{}}
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !stateType(phi.Type()) {
			continue
		}
		var vals []wval
		for i, e := range phi.Edges {
			if l.body[l.head.Preds[i]] {
				continue
			}
			vals = append(vals, w.webConsts(e, map[ssa.Value]bool{})...)
		}
		if len(vals) == 0 {
			vals = []wval{{}}
		}
		var next []map[*ssa.Phi]wval
		seen := map[string]bool{}
		for _, v := range vals {
			if seen[v.String()] {
				continue
			}
			seen[v.String()] = true
			for _, s := range states {
				n := map[*ssa.Phi]wval{phi: v}
				for k, o := range s {
					n[k] = o
				}
				next = append(next, n)
			}
		}
		states = next
	}
	return states
}

func (w *wordParser) webConsts(v ssa.Value, seen map[ssa.Value]bool) []wval {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if r := w.eval(&wpath{}, wclass{}, x, 0); r.k != wTop {
			return []wval{r}
		}
	case *ssa.Phi:
		var out []wval
		for _, e := range x.Edges {
			out = append(out, w.webConsts(e, seen)...)
		}
		return out
	}
	return nil
}

func phiKey(m map[*ssa.Phi]wval) string {
	n := map[string]wval{}
	for k, v := range m {
		n[k.Name()] = v
	}
	return encodeState(n)
}

func describeState(m map[*ssa.Phi]wval) string {
	var l []string
	for p, v := range m {
		if v.k == wInt || v.k == wTop || v.k == wBool && v.n == 0 || v.k == wStr && v.s == "" {
			continue
		}
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		if v.k == wBool {
			l = append(l, name)
		} else {
			l = append(l, name+" is "+v.String())
		}
	}
	sort.Strings(l)
	if len(l) == 0 {
		return "nothing is pending"
	}
	return strings.Join(l, " and ")
}

// loop explores the parsing automaton of one loop: its states are the values of its string, number and
// flag variables, its inputs the word classes.
func (w *wordParser) loop(f *ssa.Function, l *loop, elems []ssa.Value, bts []string) {
	classes := w.classes(f, bts)
	work := w.initialStates(l)
	initial := map[string]bool{}
	for _, s := range work {
		initial[nonInt(s)] = true
	}
	seen := map[string]bool{}
	phis := map[string]*ssa.Phi{}
	for _, in := range l.head.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis[phi.Name()] = phi
		}
	}
	headDone := w.headMatched(f, l)
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		if seen[phiKey(s)] || len(seen) > 4000 {
			continue
		}
		seen[phiKey(s)] = true
		position := int64(2)
		for _, v := range s {
			if v.k == wInt {
				position = min(position, v.n+1)
			}
		}
		for _, c := range classes {
			p := newPath()
			for k, v := range s {
				p.env[k] = v
			}
			for _, e := range elems {
				p.env[e] = wval{k: wElem}
				p.taint[e] = true
				p.keep[e] = true
			}
			rule := "reject"
			if c.word.k == wStr {
				rule = "acted"
			}
			if c.head.k != wStr {
				w.x.oblige(rule)
			}
			for _, o := range w.run(f, l, l.head, nil, p, c, 0) {
				if o.exit && o.vals == nil && !o.err && !o.used && !o.effect {
					continue // the loop ended before this word
				}
				if o.enum != "" && !o.err && c.word.k != wStr {
					w.x.fail("enum", fname(f)+" "+o.enum, w.r.pos(l.pos()),
						"%s takes over %s as %s without matching it against the known ones", fname(f), c, o.enum)
				}
				if !o.exit {
					if n := w.decode(o, phis, s, c); n != nil {
						work = append(work, n)
					}
				}
				if o.err || o.used || c.head.k == wStr {
					continue
				}
				if position == 0 && headDone {
					continue
				}
				switch {
				case c.word.k == wStr:
					if o.effect || o.exit || position < 2 || !initial[nonInt(s)] || o.state != "" && w.changed(o, s) {
						continue
					}
					if w.lookedAhead(f, elems, c.word.s) {
						continue
					}
					w.x.fail("acted", fname(f)+" "+c.word.s, w.r.pos(l.pos()),
						"%s accepts the keyword %s and does nothing with it", fname(f), c.word.s)
				default:
					pend := ""
					for phi, v := range s {
						if v.k == wStr && v.s != "" && stateType(phi.Type()) {
							pend = v.s
						}
					}
					if pend != "" {
						w.x.fail("acted", "value of "+pend, w.r.pos(l.pos()),
							"%s accepts the keyword %s but can ignore what follows it (%s)", fname(f), pend, c)
						continue
					}
					w.x.fail("reject", fname(f)+" "+c.String()+" when "+describeState(s), w.r.pos(l.pos()),
						"%s can skip %s without an error when %s", fname(f), c, describeState(s))
				}
			}
		}
	}
	w.x.analysed["parser states"] += len(seen)
	w.x.sample("reject", fmt.Sprintf("%s at %s: %d states, %d word classes", fname(f), w.r.pos(l.pos()), len(seen), len(classes)))
}

func (l *loop) pos() token.Pos {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range l.head.Succs {
		if l.body[s] {
			for _, in := range s.Instrs {
				if in.Pos().IsValid() {
					return in.Pos()
				}
			}
		}
	}
	return l.head.Parent().Pos()
}

func nonInt(s map[*ssa.Phi]wval) string {
	n := map[string]wval{}
	for k, v := range s {
		if v.k != wInt {
			n[k.Name()] = v
		}
	}
	return encodeState(n)
}

func (w *wordParser) changed(o wout, s map[*ssa.Phi]wval) bool {
	// compare without the counters
	old := map[string]string{}
	for k, v := range s {
		if v.k != wInt {
			old[k.Name()] = v.String()
		}
	}
	for _, part := range splitState(o.state) {
		k, v, _ := strings.Cut(part, "=")
		if ov, ok := old[k]; ok && ov != v {
			return true
		}
	}
	return false
}

func splitState(s string) []string {
	var out []string
	for _, part := range strings.Split(s, " ") {
		if strings.Contains(part, "=") && strings.HasPrefix(part, "t") {
			out = append(out, part)
		} else if len(out) > 0 {
			out[len(out)-1] += " " + part
		}
	}
	return out
}

func (w *wordParser) decode(o wout, phis map[string]*ssa.Phi, s map[*ssa.Phi]wval, c wclass) map[*ssa.Phi]wval {
	n := map[*ssa.Phi]wval{}
	for k, v := range s {
		n[k] = v
	}
	for _, part := range splitState(o.state) {
		k, v, _ := strings.Cut(part, "=")
		phi := phis[k]
		if phi == nil {
			continue
		}
		switch {
		case v == "?":
			n[phi] = wval{}
		case v == "unknown keyword":
			n[phi] = wval{k: wUnknownKey}
		case v == "word":
			n[phi] = wval{k: wData}
		case strings.HasPrefix(v, "\""):
			var str string
			fmt.Sscanf(v, "%q", &str)
			n[phi] = wval{k: wStr, s: str}
		default:
			var i int64
			fmt.Sscan(v, &i)
			if b, ok := phi.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				n[phi] = wval{k: wBool, n: i}
			} else {
				n[phi] = wval{k: wInt, n: i}
			}
		}
	}
	return n
}

// headMatched: the first word of the walked list is compared with a constant before the loop.
func (w *wordParser) headMatched(f *ssa.Function, l *loop) bool {
	for _, over := range l.over {
		refs := over.Referrers()
		if refs == nil {
			continue
		}
		for _, ref := range *refs {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok || !isConst(ia.Index) || !ia.Block().Dominates(l.head) {
				continue
			}
			for _, u := range *ia.Referrers() {
				if h, ok := u.(*ssa.UnOp); ok && h.Op == token.MUL {
					for _, hf := range *h.Referrers() {
						if fa, ok := hf.(*ssa.FieldAddr); ok && fieldName(fa) == "text" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// lookedAhead: the keyword is matched by looking at another word of the same list.
func (w *wordParser) lookedAhead(f *ssa.Function, elems []ssa.Value, key string) bool {
	own := map[ssa.Value]bool{}
	for _, e := range elems {
		own[e] = true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL {
				continue
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.String || constant.StringVal(c.Value) != key {
				continue
			}
			if u, ok := bo.X.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa) == "text" && !own[fa.X] {
					if _, ok := fa.X.(*ssa.UnOp); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// openText: the tokenizer (the function that walks the characters of a block's text) adds an error when
// the text ends in any state other than the one it starts in.
func (w *wordParser) openText(from map[*ssa.Function]*ssa.Function) {
	found := false
	for _, f := range w.r.funcs {
		if _, ok := from[f]; !ok {
			continue
		}
		for _, l := range naturalLoops(f) {
			if l.next == nil || !l.next.IsString || !makesBlocks(f, l, w.tb) {
				continue
			}
			var state *ssa.Phi
			best := 0
			for _, in := range l.head.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !basicString(phi.Type()) {
					continue
				}
				n := len(comparedConsts(phi))
				if n > best {
					state, best = phi, n
				}
			}
			if state == nil {
				continue
			}
			found = true
			var start []wval
			for i, e := range state.Edges {
				if !l.body[l.head.Preds[i]] {
					start = append(start, w.webConsts(e, map[ssa.Value]bool{})...)
				}
			}
			vals := map[string]bool{}
			for _, s := range w.webConsts(state, map[ssa.Value]bool{}) {
				vals[s.s] = true
			}
			for s := range comparedConsts(state) {
				vals[s] = true
			}
			for _, s := range start {
				delete(vals, s.s)
			}
			var exit *ssa.BasicBlock
			for _, s := range l.head.Succs {
				if !l.body[s] {
					exit = s
				}
			}
			if exit == nil {
				w.x.fail("open", fname(f), w.r.pos(f.Pos()), "the loop of %s over the characters has no end", fname(f))
				continue
			}
			for s := range vals {
				w.x.obligeOnce("open", fname(f)+" "+s)
				p := newPath()
				p.env[state] = wval{k: wStr, s: s}
				for _, o := range w.run(f, nil, exit, l.head, p, wclass{}, 0) {
					if !o.err {
						w.x.fail("open", fname(f)+" "+s, w.r.pos(l.pos()),
							"%s can return without an error although the text ended inside %q", fname(f), s)
					}
				}
			}
		}
	}
	if !found {
		w.x.fail("open", "tokenizer", "-", "no function that walks the characters of a text and builds blocks was found")
	}
}

func comparedConsts(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	for _, ref := range *v.Referrers() {
		if bo, ok := ref.(*ssa.BinOp); ok && bo.Op == token.EQL {
			for _, s := range stringConsts(bo.Y, 0) {
				out[s] = true
			}
		}
	}
	return out
}

func makesBlocks(f *ssa.Function, l *loop, tb types.Type) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isPtrTo(fa.X.Type(), tb) {
					return true
				}
			}
		}
	}
	return false
}
