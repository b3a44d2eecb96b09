package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// interp is an abstract evaluator of the compiler's own source. It follows the type-checked
// syntax of a function with symbolic arguments and yields, for every string the function builds,
// a rope describing all texts it can be. Branches become choices, loops become repetitions and
// calls are followed; what cannot be followed becomes a hole. Nothing is executed.

type value interface{ key() string }

type sym struct {
	k    string
	kind string // param, field, elem, mapkey, index, call, global, slice, text, opaque, rec
	base value
	name string
	typ  types.Type
	args []value
	tok  int
	fn   *types.Func
	pos  token.Pos
}

func (s *sym) key() string { return s.k }

type bval struct{ b bdd }

func (b bval) key() string { return "B" + strconv.Itoa(int(b.b)) }

type num struct {
	k      string
	c      int64
	isc    bool
	lenOf  value  // len(list)
	textOf *rope  // len(text)
	idx    string // index variable of the loop with this key
	alt    *numAlt
}

// numAlt is a number that is one of two
type numAlt struct {
	c     bdd
	a, b  *num
	depth int
}

func (n *num) key() string { return n.k }

type nilv struct{}

func (nilv) key() string { return "nil" }

type obj struct {
	id  int
	typ types.Type // the pointed-to type
	pos token.Pos
	glb bool
}

func (o *obj) key() string { return "O" + strconv.Itoa(o.id) }

type structv struct {
	typ  types.Type
	base *sym
	over map[string]value
}

func (s *structv) key() string {
	var l []string
	for f, v := range s.over {
		l = append(l, f+"="+v.key())
	}
	sort.Strings(l)
	b := ""
	if s.base != nil {
		b = s.base.k
	}
	return "{" + b + ";" + s.typ.String() + ";" + strings.Join(l, ",") + "}"
}

type listv struct {
	segs []seg
	typ  types.Type
	fill *rloop // every slot set by this loop
	make *rloop // made with one slot per element of this loop
	made string // key of the collection it was sized after
}

func (l *listv) key() string { return "L[" + segsKey(l.segs) + "]" }

type mapv struct {
	keys []string
	vals map[string]value
	rest bool    // entries with unknown keys
	any  []value // the values of those
	by   []value // the keys of those
	typ  types.Type
}

func (m *mapv) key() string {
	var b strings.Builder
	for _, k := range m.keys {
		b.WriteString(k + "=" + m.vals[k].key() + ";")
	}
	for _, k := range m.by {
		b.WriteString("*" + k.key())
	}
	for _, v := range m.any {
		b.WriteString("*=" + v.key() + ";")
	}
	return "M[" + b.String() + strconv.FormatBool(m.rest) + "]"
}

type fnv struct {
	fn   *types.Func
	lit  *ast.FuncLit
	fr   *ropeFrame
	recv value
	id   int
}

func (f *fnv) key() string {
	if f.fn != nil {
		k := "F" + f.fn.FullName()
		if f.recv != nil {
			k += "@" + f.recv.key()
		}
		return k
	}
	return "FL" + strconv.Itoa(f.id)
}

type itev struct {
	c    bdd
	a, b value
}

func (i *itev) key() string {
	return fmt.Sprintf("ite(%d,%s,%s)", i.c, i.a.key(), i.b.key())
}

type ptrv struct{ k skey }

func (p ptrv) key() string { return fmt.Sprintf("&%d.%p.%s.%s", p.k.fr, p.k.obj, p.k.ref, p.k.field) }

type skey struct {
	fr    int
	obj   types.Object
	ref   string
	field string
}

type store struct {
	up *store
	m  map[skey]value
}

func newStore(up *store) *store { return &store{up: up, m: map[skey]value{}} }

func (s *store) get(k skey) value {
	for ; s != nil; s = s.up {
		if v, ok := s.m[k]; ok {
			return v
		}
	}
	return nil
}

func (s *store) set(k skey, v value) { s.m[k] = v }

// since collects what was set in s and the layers above it, up to but excluding base.
func (s *store) since(base *store) map[skey]value {
	out := map[skey]value{}
	for t := s; t != nil && t != base; t = t.up {
		for k, v := range t.m {
			if _, ok := out[k]; !ok {
				out[k] = v
			}
		}
	}
	return out
}

type ropeFrame struct {
	id   int
	up   *ropeFrame
	fn   *types.Func
	info *types.Info
	rets []ret
	sig  *types.Signature
	base *store
}

type ret struct {
	c  bdd
	vs []value
}

type snap struct {
	c  bdd
	st *store
}

type target struct {
	label  string
	isLoop bool
	base   *store
	brk    []snap
	cont   []snap
}

// sink is a text that leaves the compiler for a file.
type sink struct {
	path  value
	text  *rope
	pc    bdd
	loops []*rloop
	pos   token.Pos
	stack []string
}

type recRoot struct {
	fn   *types.Func
	args []value
	key  string
}

// loopFlag is a boolean carried from one iteration of a loop to the next.
type loopFlag struct {
	loop              string
	next, init, after bdd
}

type interp struct {
	r  *repo
	bd *bdds
	rs *ropes

	base      *store
	syms      map[string]*sym
	loopsM    map[string]*rloop
	objs      map[string]*obj
	nobj      int
	nframe    int
	nlit      int
	ntok      int
	steps     int
	maxStep   int
	symgen    int
	memo      map[string][]value
	eqM       map[[2]int]bdd
	emptyM    map[int]bdd
	testM     map[string]bdd
	textTests map[int][]textTestAt // tests of a text
	flags     map[int]*loopFlag    // by variable of the value at the start of an iteration
	stack     []*types.Func
	pcs       []bdd
	loops     []*rloop
	sinks     []sink
	roots     []recRoot
	rootRes   []rootResult
	rootIdx   map[string]bool
	assigned  map[types.Object]bool // package variables assigned outside their initializer
	inits     map[types.Object]*ast.ValueSpec
	initPkg   map[types.Object]*packages.Package
	initing   map[types.Object]bool
	defTypes  map[types.Type]bool
	sinky     map[*types.Func]bool // functions from which a file write is reachable
	evals     map[*types.Func]bool // functions that were followed
	// onSwitch is told about a choice by a known value for which no case exists
	onMiss func(in *interp, x *exec, s *ast.SwitchStmt, tag value)
	cutCh  int
}

type exec struct {
	in      *interp
	fr      *ropeFrame
	st      *store
	live    bdd
	targets []*target
}

func newInterp(r *repo) *interp {
	in := &interp{
		r: r, bd: newBdds(), base: newStore(nil),
		objs: map[string]*obj{}, syms: map[string]*sym{}, loopsM: map[string]*rloop{}, memo: map[string][]value{},
		eqM: map[[2]int]bdd{}, emptyM: map[int]bdd{}, testM: map[string]bdd{}, textTests: map[int][]textTestAt{}, flags: map[int]*loopFlag{},
		rootIdx: map[string]bool{}, assigned: map[types.Object]bool{},
		inits: map[types.Object]*ast.ValueSpec{}, initPkg: map[types.Object]*packages.Package{},
		initing: map[types.Object]bool{}, sinky: map[*types.Func]bool{}, evals: map[*types.Func]bool{},
		maxStep: 40000000, ntok: 1,
	}
	in.rs = newRopes(in.bd)
	for _, p := range r.pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.GenDecl:
					for _, s := range d.Specs {
						if vs, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR {
							for _, n := range vs.Names {
								if o := p.TypesInfo.Defs[n]; o != nil {
									in.inits[o] = vs
									in.initPkg[o] = p
								}
							}
						}
					}
				case *ast.FuncDecl:
					if d.Body == nil {
						continue
					}
					mark := func(e ast.Expr) {
						if id, ok := ast.Unparen(e).(*ast.Ident); ok {
							if v, ok := p.TypesInfo.Uses[id].(*types.Var); ok && v.Parent() == p.Types.Scope() {
								in.assigned[v] = true
							}
						}
					}
					ast.Inspect(d.Body, func(n ast.Node) bool {
						switch n := n.(type) {
						case *ast.AssignStmt:
							for _, l := range n.Lhs {
								mark(l)
							}
						case *ast.IncDecStmt:
							mark(n.X)
						case *ast.UnaryExpr:
							if n.Op == token.AND {
								mark(n.X)
							}
						}
						return true
					})
				}
			}
		}
	}
	in.findSinky()
	return in
}

func isFileWrite(name string) bool {
	switch name {
	case "os.WriteFile", "io/ioutil.WriteFile", "(*os.File).WriteString", "(*os.File).Write",
		"io.WriteString", "io.Copy", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "os.Create",
		"os.OpenFile", "os.CreateTemp", "os.Rename":
		return true
	}
	return false
}

func (in *interp) findSinky() {
	work := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range in.r.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
						if isFileWrite(g.String()) && !seen[f] {
							seen[f] = true
							work = append(work, f)
						}
					}
				}
			}
		}
		if f.Parent() != nil {
			callers[f] = append(callers[f], f.Parent())
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if o, ok := f.Object().(*types.Func); ok {
			in.sinky[o] = true
		}
		for _, c := range callers[f] {
			if !seen[c] {
				seen[c] = true
				work = append(work, c)
			}
		}
	}
}

// symbols

func (in *interp) sym(s sym) *sym {
	if o, ok := in.syms[s.k]; ok {
		return o
	}
	p := &s
	in.syms[s.k] = p
	return p
}

func (in *interp) val(s *sym) value {
	if s.typ == nil {
		return s
	}
	if b, ok := s.typ.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return in.rs.hole(s, nil)
		case b.Info()&types.IsBoolean != 0:
			return bval{in.bd.atom(s.k, "", in.symText(s))}
		case b.Info()&types.IsInteger != 0:
			return &num{k: s.k}
		case b.Kind() == types.UntypedNil:
			return nilv{}
		}
	}
	return s
}

func (in *interp) symText(s *sym) string {
	t := s.k
	if len(t) > 90 {
		t = t[:40] + "…" + t[len(t)-45:]
	}
	return t
}

func (in *interp) param(name string, typ types.Type) value {
	return in.val(in.sym(sym{k: name, kind: "param", name: name, typ: typ}))
}

func (in *interp) opaque(kind string, typ types.Type, pos token.Pos, args ...value) value {
	var b strings.Builder
	b.WriteString(kind)
	if pos != 0 {
		fmt.Fprintf(&b, "@%d", pos)
	}
	b.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			b.WriteByte(',')
		}
		if a != nil {
			b.WriteString(a.key())
		}
	}
	b.WriteByte(')')
	return in.val(in.sym(sym{k: b.String(), kind: "opaque", name: kind, typ: typ, args: args, pos: pos}))
}

func (in *interp) num(c int64) *num {
	return &num{k: strconv.FormatInt(c, 10), c: c, isc: true}
}

func (in *interp) zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return in.rs.empty
		case u.Info()&types.IsBoolean != 0:
			return bval{bFalse}
		case u.Info()&types.IsInteger != 0:
			return in.num(0)
		}
		return in.sym(sym{k: "zero:" + t.String(), kind: "opaque", typ: t})
	case *types.Slice:
		return &listv{typ: t}
	case *types.Struct:
		out := &structv{typ: t, over: map[string]value{}}
		if isBuffer(t) {
			out.over["buf"] = in.rs.empty
		}
		return out
	case *types.Array:
		return in.sym(sym{k: "zero:" + t.String(), kind: "opaque", typ: t})
	}
	return nilv{}
}

// isBuffer says whether a type collects text.
func isBuffer(t types.Type) bool {
	s := t.String()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

// zeroField is the value of a field of an object that was not set.
func (in *interp) zeroField(o *obj, name string) value {
	if isBuffer(o.typ) {
		return in.rs.empty
	}
	if st, ok := o.typ.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return in.zero(st.Field(i).Type())
			}
		}
	}
	return nil
}

// loopOver returns the loop over a collection.
func (in *interp) loopOver(coll value, pos token.Pos) *rloop {
	k := coll.key()
	for {
		active := false
		for _, l := range in.loops {
			if l.key == k {
				active = true
			}
		}
		if !active {
			break
		}
		k += "'"
	}
	if l, ok := in.loopsM[k]; ok {
		return l
	}
	l := &rloop{key: k, coll: coll, pos: pos}
	in.loopsM[k] = l
	return l
}

func elemTypeOf(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.String]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemTypeOf(u.Elem())
	}
	return types.Typ[types.Invalid]
}

func (in *interp) elemOf(coll *sym, l *rloop) value {
	return in.val(in.sym(sym{k: l.key + "[*]", kind: "elem", base: coll, typ: elemTypeOf(coll.typ)}))
}

func (in *interp) keyOf(coll *sym, l *rloop, typ types.Type) value {
	return in.val(in.sym(sym{k: "key(" + l.key + ")", kind: "mapkey", base: coll, typ: typ, name: l.key}))
}

// segsOf turns a list value into its parts.
func (in *interp) segsOf(v value, pos token.Pos) []seg {
	switch v := v.(type) {
	case *listv:
		return v.segs
	case nilv:
		return nil
	case *itev:
		return in.ifSegs(v.c, in.segsOf(v.a, pos), in.segsOf(v.b, pos))
	case *sym:
		l := in.loopOver(v, pos)
		return []seg{{loop: l, a: []seg{{v: in.elemOf(v, l)}}}}
	}
	s := in.sym(sym{k: "list(" + v.key() + ")", kind: "opaque", typ: types.NewSlice(types.Typ[types.String])})
	l := in.loopOver(s, pos)
	return []seg{{loop: l, a: []seg{{v: in.elemOf(s, l)}}}}
}

func segEq(a, b seg) bool { return segsKey([]seg{a}) == segsKey([]seg{b}) }

func (in *interp) ifSegs(c bdd, a, b []seg) []seg {
	i := 0
	for i < len(a) && i < len(b) && segEq(a[i], b[i]) {
		i++
	}
	j := 0
	for j < len(a)-i && j < len(b)-i && segEq(a[len(a)-1-j], b[len(b)-1-j]) {
		j++
	}
	out := append([]seg{}, a[:i]...)
	ma, mb := a[i:len(a)-j], b[i:len(b)-j]
	if len(ma) > 0 || len(mb) > 0 {
		out = append(out, seg{ifelse: true, c: c, a: ma, b: mb})
	}
	return append(out, a[len(a)-j:]...)
}

// ite merges two values.
func (in *interp) ite(c bdd, a, b value) value {
	switch {
	case a == nil:
		return b
	case b == nil:
		return a
	case c == bTrue:
		return a
	case c == bFalse:
		return b
	}
	if a.key() == b.key() {
		return a
	}
	switch x := a.(type) {
	case *rope:
		if y, ok := b.(*rope); ok {
			return in.rs.ifelse(c, x, y)
		}
	case bval:
		if y, ok := b.(bval); ok {
			return bval{in.bd.ite(c, x.b, y.b)}
		}
	case *listv:
		if y, ok := b.(*listv); ok {
			return &listv{segs: in.ifSegs(c, x.segs, y.segs), typ: x.typ}
		}
		if isListValue(b) {
			return &listv{segs: in.ifSegs(c, x.segs, in.segsOf(b, 0)), typ: x.typ}
		}
	case *structv:
		if y, ok := b.(*structv); ok && x.base == y.base {
			out := &structv{typ: x.typ, base: x.base, over: map[string]value{}}
			st, _ := x.typ.Underlying().(*types.Struct)
			if st != nil {
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					_, o1 := x.over[f.Name()]
					_, o2 := y.over[f.Name()]
					if o1 || o2 {
						out.over[f.Name()] = in.ite(c, in.field(nil, x, f), in.field(nil, y, f))
					}
				}
				return out
			}
		}
	case *mapv:
		if y, ok := b.(*mapv); ok {
			out := &mapv{vals: map[string]value{}, rest: x.rest || y.rest, any: addAny(x.any, y.any...), by: addAny(x.by, y.by...), typ: x.typ}
			for _, k := range x.keys {
				out.keys = append(out.keys, k)
				out.vals[k] = in.ite(c, x.vals[k], y.vals[k])
			}
			for _, k := range y.keys {
				if _, ok := out.vals[k]; !ok {
					out.keys = append(out.keys, k)
					out.vals[k] = y.vals[k]
				}
			}
			return out
		}
	}
	if y, ok := b.(*listv); ok && isListValue(a) {
		return &listv{segs: in.ifSegs(c, in.segsOf(a, 0), y.segs), typ: y.typ}
	}
	if x, ok := a.(*num); ok {
		if y, ok := b.(*num); ok {
			n := &num{k: fmt.Sprintf("ite(%d,%s,%s)", c, x.k, y.k)}
			alt := &numAlt{c: c, a: x, b: y, depth: 1}
			for _, m := range []*num{x, y} {
				if m.alt != nil && m.alt.depth >= alt.depth {
					alt.depth = m.alt.depth + 1
				}
			}
			if alt.depth <= 40 {
				n.alt = alt
			}
			return n
		}
	}
	return &itev{c, a, b}
}

func addAny(l []value, vs ...value) []value {
	out := append([]value{}, l...)
	for _, v := range vs {
		dup := false
		for _, o := range out {
			dup = dup || o.key() == v.key()
		}
		if !dup {
			out = append(out, v)
		}
	}
	return out
}

func isListValue(v value) bool {
	switch v := v.(type) {
	case *listv, nilv:
		return true
	case *sym:
		if v.typ == nil {
			return false
		}
		_, ok := v.typ.Underlying().(*types.Slice)
		return ok
	case *itev:
		return isListValue(v.a) && isListValue(v.b)
	}
	return false
}

// field reads a field. x may be nil when no heap is involved.
func (in *interp) field(x *exec, v value, f *types.Var) value {
	switch v := v.(type) {
	case *itev:
		return in.ite(v.c, in.field(x, v.a, f), in.field(x, v.b, f))
	case *obj:
		if x != nil {
			if r := x.st.get(skey{ref: v.key(), field: f.Name()}); r != nil {
				return r
			}
		}
		return in.zero(f.Type())
	case *structv:
		if r, ok := v.over[f.Name()]; ok {
			return r
		}
		if v.base != nil {
			return in.field(x, v.base, f)
		}
		return in.zero(f.Type())
	case ptrv:
		if x != nil {
			return in.field(x, x.st.get(v.k), f)
		}
	case *sym:
		st := in.base
		if x != nil {
			st = x.st
		}
		if r := st.get(skey{ref: v.k, field: f.Name()}); r != nil {
			return r
		}
		return in.val(in.sym(sym{k: v.k + "." + f.Name(), kind: "field", base: v, name: f.Name(), typ: f.Type()}))
	case nil:
		return in.opaque("nilfield."+f.Name(), f.Type(), 0)
	}
	return in.opaque("field."+f.Name(), f.Type(), 0, v)
}

func (in *interp) withField(v value, f *types.Var, nv value, t types.Type) value {
	switch v := v.(type) {
	case *structv:
		out := &structv{typ: v.typ, base: v.base, over: map[string]value{}}
		for k, o := range v.over {
			out.over[k] = o
		}
		out.over[f.Name()] = nv
		return out
	case *sym:
		return &structv{typ: t, base: v, over: map[string]value{f.Name(): nv}}
	case *itev:
		return in.ite(v.c, in.withField(v.a, f, nv, t), in.withField(v.b, f, nv, t))
	}
	return &structv{typ: t, over: map[string]value{f.Name(): nv}}
}

// conditions

func (in *interp) truth(v value) bdd {
	switch v := v.(type) {
	case bval:
		return v.b
	case *itev:
		return in.bd.ite(v.c, in.truth(v.a), in.truth(v.b))
	case nil:
		return in.bd.atom("?", "", "?")
	}
	return in.bd.atom("true("+v.key()+")", "", "true("+v.key()+")")
}

// isEmpty is the condition under which a text is empty.
func (in *interp) isEmpty(r *rope) bdd {
	if c, ok := in.emptyM[r.id]; ok {
		return c
	}
	c := in.bd.cap(in.isEmpty1(r), capSize)
	in.emptyM[r.id] = c
	return c
}

func (in *interp) isEmpty1(r *rope) bdd {
	switch r.kind {
	case rConst:
		if r.s == "" {
			return bTrue
		}
		return bFalse
	case rHole:
		for _, o := range r.ops {
			if o.kind == "slice" || o.kind == "trim" || o.kind == "trimprefix" || o.kind == "trimsuffix" || o.kind == "replace" && o.b == "" {
				k := "empty(" + r.sym.k + opsKey(r.ops) + ")"
				return in.bd.atom(k, "", k)
			}
		}
		return in.eqAtom(r.sym.k, "", in.symText(r.sym))
	case rCat:
		c := bTrue
		for _, p := range r.parts {
			c = in.bd.and(c, in.isEmpty(p))
			if c == bFalse {
				return bFalse
			}
		}
		return c
	case rIf:
		return in.bd.ite(r.c, in.isEmpty(r.a), in.isEmpty(r.b))
	case rStar:
		if in.isEmpty(r.body) == bFalse {
			return in.bd.not(in.nonemptyLoop(r.loop))
		}
	}
	k := "empty(" + r.key() + ")"
	return in.bd.atom(k, "", k)
}

func (in *interp) nonemptyLoop(l *rloop) bdd {
	return in.bd.atom("some("+l.key+")", "", "there is an element in "+l.key)
}

func (in *interp) nonempty(segs []seg) bdd {
	c := bFalse
	for _, s := range segs {
		switch {
		case s.tok > 0:
			k := fmt.Sprintf("some(tok%d)", s.tok)
			c = in.bd.or(c, in.bd.atom(k, "", k))
		case s.ifelse:
			c = in.bd.or(c, in.bd.ite(s.c, in.nonempty(s.a), in.nonempty(s.b)))
		case s.loop != nil:
			inner := in.nonempty(s.a)
			if inner == bTrue {
				c = in.bd.or(c, in.nonemptyLoop(s.loop))
			} else if inner != bFalse {
				k := "some(" + segsKey([]seg{s}) + ")"
				c = in.bd.or(c, in.bd.atom(k, "", k))
			}
		default:
			return bTrue
		}
	}
	return c
}

func (in *interp) eqAtom(k, c, text string) bdd {
	t := text + " is " + strconv.Quote(c)
	return in.bd.atom(k+"=="+c, k, t)
}

func constText(r *rope) (string, bool) {
	switch r.kind {
	case rConst:
		return r.s, true
	case rCat:
		s := ""
		for _, p := range r.parts {
			t, ok := constText(p)
			if !ok {
				return "", false
			}
			s += t
		}
		return s, true
	}
	return "", false
}

func (in *interp) eqRope(a, b *rope, depth int) bdd {
	if a == b {
		return bTrue
	}
	k := [2]int{a.id, b.id}
	if c, ok := in.eqM[k]; ok {
		return c
	}
	c := in.bd.cap(in.eqRope1(a, b, depth), capSize)
	in.eqM[k] = c
	return c
}

func (in *interp) eqRope1(a, b *rope, depth int) bdd {
	ca, oka := constText(a)
	cb, okb := constText(b)
	if oka && okb {
		if ca == cb {
			return bTrue
		}
		return bFalse
	}
	if depth < 12 {
		if a.kind == rIf {
			return in.bd.ite(a.c, in.eqRope(a.a, b, depth+1), in.eqRope(a.b, b, depth+1))
		}
		if b.kind == rIf {
			return in.bd.ite(b.c, in.eqRope(a, b.a, depth+1), in.eqRope(a, b.b, depth+1))
		}
	}
	if oka {
		a, b, ca, cb, oka, okb = b, a, cb, ca, okb, oka
	}
	if okb {
		if cb == "" {
			return in.isEmpty(a)
		}
		if a.kind == rHole {
			return in.eqAtom(a.sym.k+opsKey(a.ops), cb, in.symText(a.sym))
		}
		if a.kind == rCat {
			first, last := a.parts[0], a.parts[len(a.parts)-1]
			if first.kind == rConst && !strings.HasPrefix(cb, first.s) {
				return bFalse
			}
			if last.kind == rConst && !strings.HasSuffix(cb, last.s) {
				return bFalse
			}
			// a name built from two parts: compare part by part when the split is known
			if len(a.parts) == 3 && a.parts[1].kind == rConst && first.kind == rHole && last.kind == rHole {
				if i := strings.LastIndex(cb, a.parts[1].s); i >= 0 {
					return in.bd.and(
						in.eqRope(first, in.rs.konst(cb[:i], 0), depth+1),
						in.eqRope(last, in.rs.konst(cb[i+len(a.parts[1].s):], 0), depth+1))
				}
				return bFalse
			}
		}
		return in.eqAtom(a.key(), cb, a.key())
	}
	x, y := a.key(), b.key()
	if a.kind == rHole {
		x = a.sym.k + opsKey(a.ops)
	}
	if b.kind == rHole {
		y = b.sym.k + opsKey(b.ops)
	}
	if x > y {
		x, y = y, x
	}
	return in.bd.atom(x+"=="+y, "", x+" == "+y)
}

func (in *interp) eq(a, b value) bdd {
	if a == nil || b == nil {
		return in.bd.atom("?eq", "", "?")
	}
	if x, ok := a.(*itev); ok {
		return in.bd.ite(x.c, in.eq(x.a, b), in.eq(x.b, b))
	}
	if y, ok := b.(*itev); ok {
		return in.bd.ite(y.c, in.eq(a, y.a), in.eq(a, y.b))
	}
	if a.key() == b.key() {
		return bTrue
	}
	switch x := a.(type) {
	case *rope:
		if y, ok := b.(*rope); ok {
			return in.eqRope(x, y, 0)
		}
	case bval:
		if y, ok := b.(bval); ok {
			return in.bd.not(in.bd.ite(x.b, in.bd.not(y.b), y.b))
		}
	case *num:
		if y, ok := b.(*num); ok {
			if x.isc && y.isc {
				return bFalse
			}
			if x.alt != nil && y.isc {
				return in.bd.ite(x.alt.c, in.eq(x.alt.a, y), in.eq(x.alt.b, y))
			}
			if y.alt != nil && x.isc {
				return in.bd.ite(y.alt.c, in.eq(x, y.alt.a), in.eq(x, y.alt.b))
			}
			if x.isc {
				x, y = y, x
			}
			if y.isc {
				if x.lenOf != nil && y.c == 0 {
					return in.bd.not(in.nonempty(in.segsOf(x.lenOf, 0)))
				}
				if x.textOf != nil && y.c == 0 {
					return in.isEmpty(x.textOf)
				}
				return in.eqAtom(x.k, y.k, x.k)
			}
		}
	case *obj:
		switch b.(type) {
		case *obj, nilv, *structv:
			return bFalse
		}
	case nilv:
		switch y := b.(type) {
		case *obj, *fnv, ptrv, *structv:
			return bFalse
		case *listv:
			return in.bd.not(in.nonempty(y.segs))
		}
	case *listv:
		if _, ok := b.(nilv); ok {
			return in.bd.not(in.nonempty(x.segs))
		}
	case *fnv, ptrv:
		if _, ok := b.(nilv); ok {
			return bFalse
		}
	}
	if _, ok := b.(*obj); ok {
		if _, isnil := a.(nilv); isnil {
			return bFalse
		}
		return in.eqAtom(a.key(), b.key(), a.key())
	}
	if _, ok := b.(nilv); ok {
		return in.eqAtom(a.key(), "nil", a.key())
	}
	if _, ok := a.(*obj); ok {
		return in.eqAtom(b.key(), a.key(), b.key())
	}
	if _, ok := a.(nilv); ok {
		return in.eqAtom(b.key(), "nil", b.key())
	}
	k1, k2 := a.key(), b.key()
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	return in.bd.atom(k1+"=="+k2, "", k1+" == "+k2)
}

func (in *interp) less(a, b value) bdd { // a < b
	x, ok1 := a.(*num)
	y, ok2 := b.(*num)
	if ok1 && ok2 {
		if x.alt != nil && y.isc {
			return in.bd.ite(x.alt.c, in.less(x.alt.a, y), in.less(x.alt.b, y))
		}
		if y.alt != nil && x.isc {
			return in.bd.ite(y.alt.c, in.less(x, y.alt.a), in.less(x, y.alt.b))
		}
		if x.isc && y.isc {
			if x.c < y.c {
				return bTrue
			}
			return bFalse
		}
		if x.isc && x.c == 0 && y.lenOf != nil { // 0 < len(l)
			return in.nonempty(in.segsOf(y.lenOf, 0))
		}
		if y.isc && y.c == 1 && x.lenOf != nil { // len(l) < 1
			return in.bd.not(in.nonempty(in.segsOf(x.lenOf, 0)))
		}
		if x.isc && x.c == 0 && y.textOf != nil {
			return in.bd.not(in.isEmpty(y.textOf))
		}
		if y.isc && y.c == 1 && x.textOf != nil {
			return in.isEmpty(x.textOf)
		}
		if x.isc && x.c < 0 && (y.lenOf != nil || y.textOf != nil) {
			return bTrue
		}
		if y.isc && y.c <= 0 && (x.lenOf != nil || x.textOf != nil) {
			return bFalse
		}
	}
	if a == nil || b == nil {
		return in.bd.atom("?lt", "", "?")
	}
	k := a.key() + "<" + b.key()
	return in.bd.atom(k, "", k)
}

// evaluation of functions

// call follows a function of the module.
func (in *interp) call(x *exec, fn *types.Func, recv value, args []value, pos token.Pos) []value {
	decl := in.r.declOf[fn]
	sig := fn.Type().(*types.Signature)
	if decl == nil || decl.Body == nil {
		return in.external(x, fn, recv, args, pos)
	}
	onlyMsgs := in.onlyMessages(sig) && !in.sinky[fn]
	if onlyMsgs && !in.changesText(sig) {
		return in.results(fn, sig, nil, "msg", 0)
	}
	all := args
	if recv != nil {
		all = append([]value{recv}, args...)
	}
	depth := 0
	for _, f := range in.stack {
		if f == fn {
			depth++
		}
	}
	if depth > 0 || len(in.stack) > 80 || in.steps > in.maxStep {
		return in.cut(x, fn, sig, all, pos)
	}
	st := in.base
	live := bTrue
	if x != nil {
		st, live = x.st, x.live
	}
	k := ""
	{
		var b strings.Builder
		fmt.Fprintf(&b, "%s#%d(", fn.FullName(), in.symgen)
		seen := map[string]bool{}
		for _, a := range all {
			in.deepKey(&b, st, a, 0, seen)
			b.WriteByte(',')
		}
		// loops that are already running change the names of their elements
		for _, l := range in.loops {
			b.WriteString("/" + l.key)
		}
		k = b.String()
	}
	if vs, ok := in.memo[k]; ok {
		return vs
	}
	nsink, startObj := len(in.sinks), in.nobj
	in.evals[fn] = true
	in.nframe++
	fr := &ropeFrame{id: in.nframe, fn: fn, info: in.r.pkgOf[fn.Pkg()].TypesInfo, sig: sig}
	child := newStore(st)
	fr.base = child
	y := &exec{in: in, fr: fr, st: child, live: bTrue}
	y.bindParams(decl.Recv, decl.Type, recv, args)
	in.stack = append(in.stack, fn)
	in.pcs = append(in.pcs, live)
	y.block(decl.Body.List)
	in.pcs = in.pcs[:len(in.pcs)-1]
	in.stack = in.stack[:len(in.stack)-1]
	vs := y.finish(decl.Type)
	if onlyMsgs {
		vs = in.results(fn, sig, nil, "msg", 0)
	}
	// keep what the call changed outside its own variables
	pure := len(in.sinks) == nsink
	for _, a := range all {
		if holdsClosure(a) {
			pure = false
		}
	}
	keepVars := false
	for _, v := range vs {
		if holdsClosure(v) {
			keepVars = true
			pure = false
		}
		if in.holdsFresh(v, startObj) {
			pure = false
		}
	}
	for key, v := range y.st.since(st) {
		if key.fr == fr.id && !keepVars {
			continue
		}
		if !in.isFreshRef(key.ref, startObj) {
			pure = false
		}
		if x != nil {
			x.st.set(key, v)
		} else {
			in.base.set(key, v)
		}
	}
	if pure {
		in.memo[k] = vs
	}
	return vs
}

func holdsClosure(v value) bool {
	switch v := v.(type) {
	case *fnv:
		return v.lit != nil
	case ptrv:
		return true
	case *itev:
		return holdsClosure(v.a) || holdsClosure(v.b)
	case *structv:
		for _, o := range v.over {
			if holdsClosure(o) {
				return true
			}
		}
	}
	return false
}

func (in *interp) isFreshRef(ref string, start int) bool {
	if !strings.HasPrefix(ref, "O") {
		return false
	}
	n, err := strconv.Atoi(ref[1:])
	return err == nil && n >= start
}

func (in *interp) holdsFresh(v value, start int) bool {
	switch v := v.(type) {
	case *obj:
		return v.id >= start
	case *itev:
		return in.holdsFresh(v.a, start) || in.holdsFresh(v.b, start)
	case *structv:
		for _, o := range v.over {
			if in.holdsFresh(o, start) {
				return true
			}
		}
	case *listv:
		return in.segsFresh(v.segs, start)
	case *mapv:
		for _, o := range v.vals {
			if in.holdsFresh(o, start) {
				return true
			}
		}
	}
	return false
}

func (in *interp) segsFresh(segs []seg, start int) bool {
	for _, s := range segs {
		if s.v != nil && in.holdsFresh(s.v, start) || in.segsFresh(s.a, start) || in.segsFresh(s.b, start) {
			return true
		}
	}
	return false
}

func (in *interp) deepKey(b *strings.Builder, st *store, v value, depth int, seen map[string]bool) {
	if v == nil {
		b.WriteString("nil!")
		return
	}
	switch v := v.(type) {
	case *obj:
		b.WriteString(v.key())
		if v.glb || seen[v.key()] || depth > 6 {
			return
		}
		seen[v.key()] = true
		if s, ok := v.typ.Underlying().(*types.Struct); ok {
			b.WriteByte('{')
			for i := 0; i < s.NumFields(); i++ {
				if f := st.get(skey{ref: v.key(), field: s.Field(i).Name()}); f != nil {
					b.WriteString(s.Field(i).Name() + "=")
					in.deepKey(b, st, f, depth+1, seen)
					b.WriteByte(';')
				}
			}
			b.WriteByte('}')
		}
	case *listv:
		b.WriteString(v.key())
		for _, s := range v.segs {
			if o, ok := s.v.(*obj); ok {
				in.deepKey(b, st, o, depth+1, seen)
			}
		}
	case *structv:
		b.WriteString(v.key())
		for _, o := range v.over {
			if o, ok := o.(*obj); ok {
				in.deepKey(b, st, o, depth+1, seen)
			}
		}
	case ptrv:
		b.WriteString(v.key())
		in.deepKey(b, st, st.get(v.k), depth+1, seen)
	default:
		b.WriteString(v.key())
	}
}

// changesText tells whether a function can change texts of its caller: it gets a function, a map
// or a pointer to something that is not part of the project.
func (in *interp) changesText(sig *types.Signature) bool {
	if in.defTypes == nil {
		in.defTypes = map[types.Type]bool{}
		var walk func(t types.Type)
		walk = func(t types.Type) {
			switch u := t.(type) {
			case *types.Pointer:
				walk(u.Elem())
			case *types.Slice:
				walk(u.Elem())
			case *types.Map:
				walk(u.Elem())
			case *types.Named:
				if in.defTypes[u] {
					return
				}
				if st, ok := u.Underlying().(*types.Struct); ok {
					in.defTypes[u] = true
					for i := 0; i < st.NumFields(); i++ {
						walk(st.Field(i).Type())
					}
					return
				}
				if _, ok := u.Underlying().(*types.Interface); !ok {
					walk(u.Underlying())
				}
			}
		}
		for _, n := range []string{"vxproject", "vxcommand", "vxmsgblock", "vxmsg", "vxtextblock"} {
			if t := in.r.typ(n); t != nil {
				walk(t)
			}
		}
	}
	changes := func(v *types.Var) bool {
		if v == nil {
			return false
		}
		switch t := v.Type().(type) {
		case *types.Signature, *types.Map:
			return true
		case *types.Pointer:
			return !in.defTypes[t.Elem()]
		}
		return false
	}
	if changes(sig.Recv()) {
		return true
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if changes(sig.Params().At(i)) {
			return true
		}
	}
	return false
}

func (in *interp) onlyMessages(sig *types.Signature) bool {
	if sig.Results().Len() == 0 {
		return true
	}
	for i := 0; i < sig.Results().Len(); i++ {
		switch sig.Results().At(i).Type().String() {
		case "*vxlisp/vxlisp.vxmsgblock", "*vxlisp/vxlisp.vxmsg":
		default:
			if n, ok := deref(sig.Results().At(i).Type()).(*types.Named); !ok || n.Obj().Name() != "vxmsgblock" && n.Obj().Name() != "vxmsg" {
				return false
			}
		}
	}
	return true
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (in *interp) results(fn *types.Func, sig *types.Signature, args []value, kind string, pos token.Pos) []value {
	var vs []value
	var b strings.Builder
	name := ""
	if fn != nil {
		name = fn.FullName()
	}
	b.WriteString(kind + ":" + name)
	if pos != 0 && fn == nil {
		fmt.Fprintf(&b, "@%d", pos)
	}
	b.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			b.WriteByte(',')
		}
		if a != nil {
			b.WriteString(a.key())
		}
	}
	b.WriteByte(')')
	for i := 0; i < sig.Results().Len(); i++ {
		k := b.String()
		if sig.Results().Len() > 1 {
			k += "#" + strconv.Itoa(i)
		}
		vs = append(vs, in.val(in.sym(sym{k: k, kind: kind, name: name, typ: sig.Results().At(i).Type(), args: args, fn: fn, pos: pos})))
	}
	return vs
}

// cut stops at a recursive call: its result is a hole, and the function is noted so that the
// consumer can judge it on its own, with every argument that is not a constant left open.
func (in *interp) cut(x *exec, fn *types.Func, sig *types.Signature, all []value, pos token.Pos) []value {
	in.cutCh++
	pat := make([]value, len(all))
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	var b strings.Builder
	b.WriteString(fn.FullName())
	for i, a := range all {
		var name string
		var t types.Type
		if i < off {
			name, t = "recv", sig.Recv().Type()
		} else if i-off < sig.Params().Len() {
			name, t = sig.Params().At(i-off).Name(), sig.Params().At(i-off).Type()
		} else {
			name, t = "extra", types.Typ[types.String]
		}
		pat[i] = a
		if !in.isFixed(a) {
			pat[i] = in.param(fn.Name()+"."+name, t)
		}
		b.WriteString("," + pat[i].key())
	}
	if k := b.String(); !in.rootIdx[k] {
		in.rootIdx[k] = true
		in.roots = append(in.roots, recRoot{fn: fn, args: pat, key: k})
	}
	return in.results(fn, sig, all, "rec", 0)
}

func (in *interp) isFixed(v value) bool {
	switch v := v.(type) {
	case bval:
		return v.b == bTrue || v.b == bFalse
	case *obj:
		return v.glb
	case nilv:
		return true
	case *rope:
		_, ok := constText(v)
		return ok
	case *listv:
		return len(v.segs) == 0
	}
	return false
}

func (x *exec) set(o types.Object, v value) {
	x.st.set(skey{fr: x.fr.id, obj: o}, v)
}

func (x *exec) bindParams(recvF *ast.FieldList, ft *ast.FuncType, recv value, args []value) {
	if recvF != nil && len(recvF.List) > 0 && len(recvF.List[0].Names) > 0 {
		if o := x.fr.info.Defs[recvF.List[0].Names[0]]; o != nil {
			x.set(o, recv)
		}
	}
	i := 0
	n := 0
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			n++
		}
		n += len(f.Names)
	}
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			i++
			continue
		}
		for _, name := range f.Names {
			o := x.fr.info.Defs[name]
			var v value
			if i < len(args) {
				v = args[i]
			}
			i++
			if o == nil {
				continue
			}
			if v == nil {
				v = x.in.param(name.Name, o.Type())
			}
			x.set(o, v)
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, name := range f.Names {
				if o := x.fr.info.Defs[name]; o != nil {
					x.set(o, x.in.zero(o.Type()))
				}
			}
		}
	}
}

// finish combines the returns of a function.
func (x *exec) finish(ft *ast.FuncType) []value {
	fr := x.fr
	if x.live != bFalse && ft.Results != nil {
		var vs []value
		for _, f := range ft.Results.List {
			for _, name := range f.Names {
				vs = append(vs, x.lookup(x.fr.info.Defs[name]))
			}
		}
		if len(vs) > 0 {
			fr.rets = append(fr.rets, ret{x.live, vs})
		}
	}
	n := fr.sig.Results().Len()
	if n == 0 {
		return nil
	}
	out := make([]value, n)
	for i := len(fr.rets) - 1; i >= 0; i-- {
		for j := range out {
			if j < len(fr.rets[i].vs) {
				if out[j] == nil {
					out[j] = fr.rets[i].vs[j]
				} else {
					out[j] = x.in.ite(fr.rets[i].c, fr.rets[i].vs[j], out[j])
				}
			}
		}
	}
	for j := range out {
		if out[j] == nil {
			out[j] = x.in.opaque("noreturn", fr.sig.Results().At(j).Type(), 0)
		}
	}
	return out
}

func (x *exec) frameOf(o types.Object) *ropeFrame {
	for f := x.fr; f != nil; f = f.up {
		if x.st.get(skey{fr: f.id, obj: o}) != nil {
			return f
		}
	}
	return nil
}

func (x *exec) lookup(o types.Object) value {
	if f := x.frameOf(o); f != nil {
		return x.st.get(skey{fr: f.id, obj: o})
	}
	v, ok := o.(*types.Var)
	if !ok {
		return x.in.opaque("object:"+o.Name(), o.Type(), o.Pos())
	}
	if v.Parent() != nil && v.Parent() == v.Pkg().Scope() {
		return x.in.global(v)
	}
	return x.in.opaque("var:"+o.Name(), o.Type(), o.Pos())
}

func (in *interp) global(v *types.Var) value {
	k := skey{obj: v}
	if g := in.base.get(k); g != nil {
		return g
	}
	name := v.Name()
	unknown := func() value {
		g := in.val(in.sym(sym{k: "global:" + v.Pkg().Name() + "." + name, kind: "global", name: name, typ: v.Type()}))
		in.base.set(k, g)
		return g
	}
	vs := in.inits[v]
	if vs == nil || in.assigned[v] || in.initing[v] {
		if in.initing[v] {
			return in.val(in.sym(sym{k: "global:" + v.Pkg().Name() + "." + name, kind: "global", name: name, typ: v.Type()}))
		}
		return unknown()
	}
	if len(vs.Values) == 0 {
		if _, ok := v.Type().Underlying().(*types.Map); ok {
			return unknown()
		}
		g := in.zero(v.Type())
		in.base.set(k, g)
		return g
	}
	in.initing[v] = true
	p := in.initPkg[v]
	in.nframe++
	saveStack, saveLoops, savePcs := in.stack, in.loops, in.pcs
	in.stack, in.loops, in.pcs = nil, nil, nil
	y := &exec{in: in, fr: &ropeFrame{id: in.nframe, info: p.TypesInfo, sig: types.NewSignatureType(nil, nil, nil, nil, nil, false)}, st: newStore(in.base), live: bTrue}
	start := in.nobj
	var g value
	if len(vs.Values) == len(vs.Names) {
		for i, n := range vs.Names {
			if p.TypesInfo.Defs[n] == v {
				g = y.eval(vs.Values[i])
			}
		}
	}
	in.stack, in.loops, in.pcs = saveStack, saveLoops, savePcs
	in.initing[v] = false
	if g == nil {
		return unknown()
	}
	for s := y.st; s != nil && s != in.base; s = s.up {
		for key := range s.m {
			if key.ref != "" {
				in.base.set(key, y.st.get(key))
			}
		}
	}
	in.markGlobal(g, start)
	in.base.set(k, g)
	return g
}

func (in *interp) markGlobal(v value, start int) {
	switch v := v.(type) {
	case *obj:
		if !v.glb && v.id >= start {
			v.glb = true
			if s, ok := v.typ.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if f := in.base.get(skey{ref: v.key(), field: s.Field(i).Name()}); f != nil {
						in.markGlobal(f, start)
					}
				}
			}
		}
	case *listv:
		for _, s := range v.segs {
			if s.v != nil {
				in.markGlobal(s.v, start)
			}
		}
	case *mapv:
		for _, o := range v.vals {
			in.markGlobal(o, start)
		}
	case *structv:
		for _, o := range v.over {
			in.markGlobal(o, start)
		}
	}
}

func (in *interp) konst(c constant.Value, t types.Type, pos token.Pos) value {
	switch c.Kind() {
	case constant.String:
		return in.rs.konst(constant.StringVal(c), pos)
	case constant.Bool:
		if constant.BoolVal(c) {
			return bval{bTrue}
		}
		return bval{bFalse}
	case constant.Int:
		if i, ok := constant.Int64Val(c); ok {
			return in.num(i)
		}
	}
	return in.val(in.sym(sym{k: "const:" + c.ExactString(), kind: "opaque", typ: t}))
}
