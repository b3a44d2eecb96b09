package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// statements

func (x *exec) block(list []ast.Stmt) {
	for _, s := range list {
		if x.live == bFalse {
			return
		}
		x.stmt(s, "")
	}
}

func (x *exec) fork() *store { return newStore(x.st) }

// capSize bounds the conditions the evaluator keeps apart in detail.
const capSize = 60

// branch runs two alternatives and merges their effects.
func (x *exec) branch(c bdd, then, els func()) {
	bd := x.in.bd
	c = bd.cap(c, capSize)
	lt, le := bd.and(x.live, c), bd.and(x.live, bd.not(c))
	ft, fe := bd.feasible(lt), bd.feasible(le)
	switch {
	case ft && !fe:
		then()
		return
	case fe && !ft:
		els()
		return
	case !ft && !fe:
		x.live = bFalse
		return
	}
	base, live := x.st, x.live
	a := newStore(base)
	x.st, x.live = a, lt
	then()
	liveA := x.live
	b := newStore(base)
	x.st, x.live = b, le
	els()
	liveB := x.live
	x.st, x.live = base, live
	x.live = bd.or(liveA, liveB)
	if x.live != live {
		x.live = bd.cap(x.live, capSize)
	}
	x.join(c, a, liveA, b, liveB)
}

func (x *exec) join(c bdd, a *store, liveA bdd, b *store, liveB bdd) {
	switch {
	case liveA == bFalse && liveB == bFalse:
		return
	case liveA == bFalse:
		for k, v := range b.m {
			x.st.set(k, v)
		}
		return
	case liveB == bFalse:
		for k, v := range a.m {
			x.st.set(k, v)
		}
		return
	}
	keys := map[skey]bool{}
	for k := range a.m {
		keys[k] = true
	}
	for k := range b.m {
		keys[k] = true
	}
	for k := range keys {
		x.st.set(k, x.in.ite(c, a.get(k), b.get(k)))
	}
}

func (x *exec) snapTo(base *store, s snap) {
	// merge the state at a jump into the current one
	bd := x.in.bd
	d := s.st.since(base)
	cur := x.st.since(base)
	for k := range cur {
		if _, ok := d[k]; !ok {
			d[k] = base.get(k)
		}
	}
	if x.live == bFalse {
		for k, v := range d {
			if v != nil {
				x.st.set(k, v)
			}
		}
	} else {
		for k, v := range d {
			x.st.set(k, x.in.ite(s.c, v, x.st.get(k)))
		}
	}
	x.live = bd.or(x.live, s.c)
}

func (x *exec) stmt(s ast.Stmt, label string) {
	x.in.steps++
	switch s := s.(type) {
	case *ast.BlockStmt:
		x.block(s.List)
	case *ast.ExprStmt:
		x.evalMulti(s.X)
	case *ast.AssignStmt:
		x.assignStmt(s)
	case *ast.DeclStmt:
		gd, ok := s.Decl.(*ast.GenDecl)
		if !ok {
			return
		}
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			switch {
			case len(vs.Values) == 0:
				for _, n := range vs.Names {
					if o := x.fr.info.Defs[n]; o != nil {
						x.set(o, x.in.zero(o.Type()))
					}
				}
			case len(vs.Values) == len(vs.Names):
				for i, n := range vs.Names {
					v := x.eval(vs.Values[i])
					if o := x.fr.info.Defs[n]; o != nil {
						x.set(o, v)
					}
				}
			default:
				l := x.evalMulti(vs.Values[0])
				for i, n := range vs.Names {
					if o := x.fr.info.Defs[n]; o != nil && i < len(l) {
						x.set(o, l[i])
					}
				}
			}
		}
	case *ast.IncDecStmt:
		v := x.eval(s.X)
		d := int64(1)
		if s.Tok == token.DEC {
			d = -1
		}
		x.assign(s.X, x.in.add(v, x.in.num(d)))
	case *ast.IfStmt:
		if s.Init != nil {
			x.stmt(s.Init, "")
		}
		c := x.in.truth(x.eval(s.Cond))
		x.branch(c, func() { x.block(s.Body.List) }, func() {
			if s.Else != nil {
				x.stmt(s.Else, "")
			}
		})
	case *ast.SwitchStmt:
		x.switchStmt(s, label)
	case *ast.TypeSwitchStmt:
		x.typeSwitch(s, label)
	case *ast.ForStmt:
		x.forStmt(s, label)
	case *ast.RangeStmt:
		x.rangeStmt(s, label)
	case *ast.ReturnStmt:
		var vs []value
		switch {
		case len(s.Results) == 0:
			if x.fr.sig.Results().Len() > 0 {
				for i := 0; i < x.fr.sig.Results().Len(); i++ {
					if v := x.fr.sig.Results().At(i); v.Name() != "" {
						vs = append(vs, x.lookup(v))
					}
				}
			}
		case len(s.Results) == 1 && x.fr.sig.Results().Len() > 1:
			vs = x.evalMulti(s.Results[0])
		default:
			for _, e := range s.Results {
				vs = append(vs, x.eval(e))
			}
		}
		x.fr.rets = append(x.fr.rets, ret{x.live, vs})
		x.live = bFalse
	case *ast.BranchStmt:
		switch s.Tok {
		case token.BREAK, token.CONTINUE:
			for i := len(x.targets) - 1; i >= 0; i-- {
				t := x.targets[i]
				if s.Label != nil && t.label != s.Label.Name {
					continue
				}
				if s.Tok == token.CONTINUE && !t.isLoop {
					continue
				}
				sn := snap{x.live, x.st.freeze(t.base)}
				if s.Tok == token.BREAK {
					t.brk = append(t.brk, sn)
				} else {
					t.cont = append(t.cont, sn)
				}
				break
			}
			x.live = bFalse
		}
	case *ast.LabeledStmt:
		x.stmt(s.Stmt, s.Label.Name)
	case *ast.DeferStmt:
		x.evalMulti(s.Call)
	case *ast.GoStmt:
		x.evalMulti(s.Call)
	}
}

// freeze keeps the state as it is now, down to a given layer, while the program goes on.
func (s *store) freeze(base *store) *store {
	if s == nil || s == base {
		return s
	}
	c := &store{up: s.up.freeze(base), m: make(map[skey]value, len(s.m))}
	for k, v := range s.m {
		c.m[k] = v
	}
	return c
}

// collapse writes everything above a layer into it and makes it the current one.
func (x *exec) collapse(base *store) {
	d := x.st.since(base)
	x.st = base
	for k, v := range d {
		base.set(k, v)
	}
}

func (x *exec) switchStmt(s *ast.SwitchStmt, label string) {
	if s.Init != nil {
		x.stmt(s.Init, "")
	}
	var tag value
	if s.Tag != nil {
		tag = x.eval(s.Tag)
	}
	base := x.st
	t := &target{label: label, base: base}
	x.targets = append(x.targets, t)
	x.st = newStore(base)
	var def *ast.CaseClause
	var clauses []*ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			clauses = append(clauses, cc)
		}
	}
	body := func(cc *ast.CaseClause) {
		x.block(cc.Body)
		for n := len(cc.Body); n > 0; n-- {
			if b, ok := cc.Body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				for i, c := range s.Body.List {
					if c == ast.Stmt(cc) && i+1 < len(s.Body.List) {
						x.block(s.Body.List[i+1].(*ast.CaseClause).Body)
					}
				}
			}
			break
		}
	}
	var run func(i int)
	run = func(i int) {
		if x.live == bFalse {
			return
		}
		if i == len(clauses) {
			if def != nil {
				body(def)
			} else if x.in.onMiss != nil && tag != nil {
				x.in.onMiss(x.in, x, s, tag)
			}
			return
		}
		c := bFalse
		for _, e := range clauses[i].List {
			v := x.eval(e)
			if tag != nil {
				c = x.in.bd.or(c, x.in.eq(tag, v))
			} else {
				c = x.in.bd.or(c, x.in.truth(v))
			}
		}
		x.branch(c, func() { body(clauses[i]) }, func() { run(i + 1) })
	}
	run(0)
	x.targets = x.targets[:len(x.targets)-1]
	for _, sn := range t.brk {
		x.snapTo(base, sn)
	}
	x.collapse(base)
}

func (x *exec) typeSwitch(s *ast.TypeSwitchStmt, label string) {
	if s.Init != nil {
		x.stmt(s.Init, "")
	}
	var subj value
	var e ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		e = a.X
	case *ast.AssignStmt:
		e = a.Rhs[0]
	}
	if ta, ok := ast.Unparen(e).(*ast.TypeAssertExpr); ok {
		subj = x.eval(ta.X)
	}
	base := x.st
	t := &target{label: label, base: base}
	x.targets = append(x.targets, t)
	x.st = newStore(base)
	var run func(i int)
	run = func(i int) {
		if i == len(s.Body.List) || x.live == bFalse {
			return
		}
		cc := s.Body.List[i].(*ast.CaseClause)
		key := fmt.Sprintf("typeswitch@%d.%d(%s)", s.Pos(), i, subj.key())
		c := x.in.bd.atom(key, fmt.Sprintf("typeswitch@%d(%s)", s.Pos(), subj.key()), key)
		if i == len(s.Body.List)-1 && cc.List == nil {
			c = bTrue
		}
		x.branch(c, func() {
			if o := x.fr.info.Implicits[cc]; o != nil {
				v := subj
				if _, ok := o.Type().Underlying().(*types.Interface); !ok {
					v = x.in.opaque("assert."+o.Type().String(), o.Type(), 0, subj)
				}
				x.set(o, v)
			}
			x.block(cc.Body)
		}, func() { run(i + 1) })
	}
	run(0)
	x.targets = x.targets[:len(x.targets)-1]
	for _, sn := range t.brk {
		x.snapTo(base, sn)
	}
	x.collapse(base)
}

// loops

func (x *exec) rangeStmt(s *ast.RangeStmt, label string) {
	coll := x.eval(s.X)
	ct := x.fr.info.TypeOf(s.X)
	bind := func(k, v value) {
		def := s.Tok == token.DEFINE
		put := func(e ast.Expr, v value) {
			if e == nil || v == nil {
				return
			}
			if id, ok := e.(*ast.Ident); ok {
				if id.Name == "_" {
					return
				}
				if def {
					if o := x.fr.info.Defs[id]; o != nil {
						x.set(o, v)
						return
					}
				}
			}
			x.assign(e, v)
		}
		put(s.Key, k)
		put(s.Value, v)
	}
	run := func() { x.block(s.Body.List) }
	switch u := ct.Underlying().(type) {
	case *types.Map:
		x.mapLoop(s, coll, u, label, bind, run)
		return
	case *types.Basic, *types.Chan, *types.Signature:
		var kt, vt types.Type = types.Typ[types.Int], types.Typ[types.Int32]
		if l, ok := coll.(*listv); ok { // an iterator over the elements of a list
			if s.Value == nil {
				x.listLoop(s, l, label, func(i, v value) { bind(v, nil) }, run)
				return
			}
		}
		if b, ok := u.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := coll.(*num); ok && n.lenOf != nil { // for i := range len(l)
				x.listLoop(s, n.lenOf, label, func(i, v value) { bind(i, nil) }, run)
				return
			}
		}
		if n, ok := coll.(*num); ok && n.isc && n.c <= 64 {
			x.listLoop(s, x.in.counts(0, n.c, 1), label, func(i, v value) { bind(i, nil) }, run)
			return
		}
		if t, ok := coll.(*rope); ok {
			if c, ok := constText(t); ok && len(c) <= 64 {
				var segs []seg
				for _, ch := range c {
					segs = append(segs, seg{v: x.in.num(int64(ch))})
				}
				x.listLoop(s, &listv{segs: segs, typ: types.NewSlice(types.Typ[types.Rune])}, label, bind, run)
				return
			}
			l := x.in.loopOver(x.in.sym(sym{k: fmt.Sprintf("chars@%d(%s)", s.Pos(), coll.key()), kind: "opaque"}), s.Pos())
			l.text = t
			x.star(l, s.Body, label, func() {
				bind(x.in.opaque("iterkey", kt, s.Pos(), coll), &num{k: "char(" + l.key + ")"})
				run()
			})
			return
		}
		l := x.in.loopOver(x.in.sym(sym{k: fmt.Sprintf("iter@%d(%s)", s.Pos(), coll.key()), kind: "opaque"}), s.Pos())
		x.star(l, s.Body, label, func() {
			bind(x.in.opaque("iterkey", kt, s.Pos(), coll), x.in.opaque("iterval", vt, s.Pos(), coll))
			run()
		})
		return
	}
	x.listLoop(s, coll, label, bind, run)
}

// listLoop runs a body for every element of a list.
func (x *exec) listLoop(s ast.Stmt, coll value, label string, bind func(k, v value), run func()) {
	body := loopBody(s)
	segs := x.in.segsOf(coll, s.Pos())
	base := x.st
	t := &target{label: label, isLoop: true, base: base}
	x.targets = append(x.targets, t)
	x.st = newStore(base)
	n := 0
	var walk func(segs []seg, top bool)
	walk = func(segs []seg, top bool) {
		for i, sg := range segs {
			if x.live == bFalse {
				return
			}
			switch {
			case sg.tok > 0:
				sy := x.in.sym(sym{k: fmt.Sprintf("tokitem%d", sg.tok), kind: "opaque", tok: sg.tok, typ: types.NewSlice(elemTypeOf(listType(coll)))})
				l := x.in.loopOver(sy, s.Pos())
				x.star(l, body, label, func() {
					bind(x.idxOf(l, coll, top && i == 0), x.in.elemOf(sy, l))
					run()
				})
			case sg.ifelse:
				x.branch(sg.c, func() { walk(sg.a, top && i == 0) }, func() { walk(sg.b, top && i == 0) })
			case sg.loop != nil:
				x.star(sg.loop, body, label, func() {
					x.nested(sg.a, func(v value) {
						bind(x.idxOf(sg.loop, coll, top && i == 0 && len(sg.a) == 1), v)
						run()
					})
				})
			default:
				c0 := len(t.cont)
				x.st = newStore(x.st)
				bind(x.in.num(int64(n)), sg.v)
				n++
				run()
				cont := append([]snap{}, t.cont[c0:]...)
				t.cont = t.cont[:c0]
				for _, sn := range cont {
					x.snapTo(base, sn)
				}
			}
		}
	}
	walk(segs, true)
	x.targets = x.targets[:len(x.targets)-1]
	for _, sn := range t.brk {
		x.snapTo(base, sn)
	}
	x.collapse(base)
}

func (x *exec) nested(segs []seg, f func(v value)) {
	for _, sg := range segs {
		switch {
		case sg.ifelse:
			x.branch(sg.c, func() { x.nested(sg.a, f) }, func() { x.nested(sg.b, f) })
		case sg.loop != nil:
			x.star(sg.loop, nil, "", func() { x.nested(sg.a, f) })
		case sg.tok > 0:
		default:
			f(sg.v)
		}
	}
}

func listType(v value) types.Type {
	switch v := v.(type) {
	case *listv:
		return v.typ
	case *sym:
		return v.typ
	case *itev:
		return listType(v.a)
	}
	return nil
}

func (x *exec) idxOf(l *rloop, coll value, first bool) value {
	k := "idx(" + l.key + ")"
	if !first {
		k = "idx(" + l.key + "+)"
	}
	return &num{k: k, idx: coll.key()}
}

func loopBody(s ast.Stmt) *ast.BlockStmt {
	switch s := s.(type) {
	case *ast.RangeStmt:
		return s.Body
	case *ast.ForStmt:
		return s.Body
	}
	return nil
}

func (x *exec) mapLoop(s *ast.RangeStmt, coll value, mt *types.Map, label string, bind func(k, v value), run func()) {
	switch m := coll.(type) {
	case *mapv:
		if !m.rest {
			base := x.st
			t := &target{label: label, isLoop: true, base: base}
			x.targets = append(x.targets, t)
			for _, k := range m.keys {
				if x.live == bFalse {
					break
				}
				x.st = newStore(x.st)
				bind(x.in.rs.konst(k, 0), m.vals[k])
				run()
				for _, sn := range t.cont {
					x.snapTo(base, sn)
				}
				t.cont = nil
			}
			x.targets = x.targets[:len(x.targets)-1]
			for _, sn := range t.brk {
				x.snapTo(base, sn)
			}
			x.collapse(base)
			return
		}
	case *sym:
		l := x.in.loopOver(m, s.Pos())
		x.star(l, s.Body, label, func() {
			bind(x.in.keyOf(m, l, mt.Key()), x.in.elemOf(m, l))
			run()
		})
		return
	case *itev:
		x.branch(m.c,
			func() { x.mapLoop(s, m.a, mt, label, bind, run) },
			func() { x.mapLoop(s, m.b, mt, label, bind, run) })
		return
	}
	sy := x.in.sym(sym{k: "map(" + coll.key() + ")", kind: "opaque", typ: mt})
	l := x.in.loopOver(sy, s.Pos())
	x.star(l, s.Body, label, func() {
		bind(x.in.keyOf(sy, l, mt.Key()), x.in.elemOf(sy, l))
		run()
	})
}

// forStmt recognises the loops over all elements of a list and treats others as repetitions of
// unknown length.
func (x *exec) forStmt(s *ast.ForStmt, label string) {
	if s.Init != nil {
		x.stmt(s.Init, "")
	}
	if obj, list, back, from := x.fullLoop(s); obj != nil {
		if from > 0 {
			list = x.in.slice(list, x.in.num(from), nil, s.Pos())
		}
		x.listLoop(s, list, label, func(k, v value) {
			if n, ok := k.(*num); ok && !n.isc && back {
				k = &num{k: n.k, idx: n.idx}
			}
			x.set(obj, k)
		}, func() { x.block(s.Body.List) })
		return
	}
	if obj, list := x.countedLoop(s); obj != nil {
		x.listLoop(s, list, label, func(k, v value) { x.set(obj, v) }, func() { x.block(s.Body.List) })
		return
	}
	l := x.in.loopOver(x.in.sym(sym{k: fmt.Sprintf("loop@%d", s.Pos()), kind: "opaque"}), s.Pos())
	x.star(l, s.Body, label, func() {
		if s.Cond != nil {
			c := x.in.truth(x.eval(s.Cond))
			// the body only runs while the condition holds
			if !x.in.bd.feasible(x.in.bd.and(x.live, c)) {
				x.live = bFalse
				return
			}
		}
		x.block(s.Body.List)
		if s.Post != nil && x.live != bFalse {
			x.stmt(s.Post, "")
		}
	})
}

func (x *exec) fullLoop(s *ast.ForStmt) (types.Object, value, bool, int64) {
	as, ok := s.Init.(*ast.AssignStmt)
	if !ok || len(as.Lhs) != 1 || s.Cond == nil || s.Post == nil {
		return nil, nil, false, 0
	}
	id, ok := as.Lhs[0].(*ast.Ident)
	if !ok {
		return nil, nil, false, 0
	}
	o := x.fr.info.ObjectOf(id)
	if o == nil {
		return nil, nil, false, 0
	}
	inc, ok := s.Post.(*ast.IncDecStmt)
	if !ok {
		return nil, nil, false, 0
	}
	if p, ok := inc.X.(*ast.Ident); !ok || x.fr.info.ObjectOf(p) != o {
		return nil, nil, false, 0
	}
	cond, ok := ast.Unparen(s.Cond).(*ast.BinaryExpr)
	if !ok {
		return nil, nil, false, 0
	}
	if p, ok := ast.Unparen(cond.X).(*ast.Ident); !ok || x.fr.info.ObjectOf(p) != o {
		return nil, nil, false, 0
	}
	start, _ := x.lookup(o).(*num)
	end, _ := x.eval(cond.Y).(*num)
	if start == nil || end == nil {
		return nil, nil, false, 0
	}
	if inc.Tok == token.INC && start.isc && start.c >= 0 && end.lenOf != nil && !strings.Contains(end.k, "-1)") {
		if cond.Op == token.LSS || cond.Op == token.NEQ {
			return o, end.lenOf, false, start.c
		}
	}
	if inc.Tok == token.DEC && start.lenOf != nil && strings.HasSuffix(start.k, "+-1)") && end.isc {
		if end.c == 0 && cond.Op == token.GEQ || end.c == -1 && cond.Op == token.GTR {
			return o, start.lenOf, true, 0
		}
	}
	return nil, nil, false, 0
}

func (in *interp) counts(from, to, by int64) *listv {
	l := &listv{typ: types.NewSlice(types.Typ[types.Int])}
	for i := from; i < to; i += by {
		l.segs = append(l.segs, seg{v: in.num(i)})
	}
	return l
}

// countedLoop gives the variable of a loop that counts up to a known number, and its values.
func (x *exec) countedLoop(s *ast.ForStmt) (types.Object, *listv) {
	as, ok := s.Init.(*ast.AssignStmt)
	if !ok || len(as.Lhs) != 1 || s.Cond == nil || s.Post == nil {
		return nil, nil
	}
	id, ok := as.Lhs[0].(*ast.Ident)
	if !ok {
		return nil, nil
	}
	o := x.fr.info.ObjectOf(id)
	isVar := func(e ast.Expr) bool {
		p, ok := ast.Unparen(e).(*ast.Ident)
		return ok && x.fr.info.ObjectOf(p) == o
	}
	if o == nil || x.assignedIn(s.Body)[o] {
		return nil, nil
	}
	by := int64(1)
	switch p := s.Post.(type) {
	case *ast.IncDecStmt:
		if p.Tok != token.INC || !isVar(p.X) {
			return nil, nil
		}
	case *ast.AssignStmt:
		if p.Tok != token.ADD_ASSIGN || !isVar(p.Lhs[0]) {
			return nil, nil
		}
		n, ok := x.eval(p.Rhs[0]).(*num)
		if !ok || !n.isc || n.c < 1 {
			return nil, nil
		}
		by = n.c
	default:
		return nil, nil
	}
	cond, ok := ast.Unparen(s.Cond).(*ast.BinaryExpr)
	if !ok || !isVar(cond.X) || cond.Op != token.LSS && cond.Op != token.LEQ {
		return nil, nil
	}
	start, _ := x.lookup(o).(*num)
	end, _ := x.eval(cond.Y).(*num)
	if start == nil || end == nil || !start.isc || !end.isc {
		return nil, nil
	}
	to := end.c
	if cond.Op == token.LEQ {
		to++
	}
	if (to-start.c)/by > 64 {
		return nil, nil
	}
	return o, x.in.counts(start.c, to, by)
}

// assignedIn collects the variables set in a piece of syntax.
func (x *exec) assignedIn(n ast.Node) map[types.Object]bool {
	out := map[types.Object]bool{}
	root := func(e ast.Expr) {
		for {
			switch f := ast.Unparen(e).(type) {
			case *ast.Ident:
				if o := x.fr.info.ObjectOf(f); o != nil {
					out[o] = true
				}
				return
			case *ast.SelectorExpr:
				e = f.X
			case *ast.IndexExpr:
				e = f.X
			case *ast.StarExpr:
				e = f.X
			default:
				return
			}
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				root(l)
			}
		case *ast.IncDecStmt:
			root(n.X)
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				if n.Key != nil {
					root(n.Key)
				}
				if n.Value != nil {
					root(n.Value)
				}
			}
		case *ast.CallExpr:
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				switch s.Sel.Name {
				case "WriteString", "WriteByte", "WriteRune", "Write", "Reset", "Grow":
					root(s.X)
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				root(n.X)
			}
		}
		return true
	})
	return out
}

// star runs the body of a loop once for an arbitrary element and works out from the difference
// to the state before what all iterations together do.
func (x *exec) star(l *rloop, body *ast.BlockStmt, label string, run func()) {
	in := x.in
	base, live := x.st, x.live
	toks := map[skey]int{}
	if body != nil {
		for o := range x.assignedIn(body) {
			if o.Pos() >= body.Pos() && o.Pos() < body.End() {
				continue
			}
			if f := x.frameOf(o); f != nil {
				toks[skey{fr: f.id, obj: o}] = 0
			}
		}
	}
	// the state may already hold placeholders of an outer run of the same loop
	var child *store
	var t *target
	nsink, nret, nobj := len(in.sinks), len(x.fr.rets), in.nobj
	in.loops = append(in.loops, l)
	var endLive bdd
	for attempt := 0; attempt < 5; attempt++ {
		in.sinks = in.sinks[:nsink]
		x.fr.rets = x.fr.rets[:nret]
		child = newStore(base)
		for k := range toks {
			id := in.tokFor(l, k)
			toks[k] = id
			child.set(k, in.placeholder(id, base.get(k)))
		}
		start := newStore(child)
		t = &target{label: label, isLoop: true, base: child}
		x.targets = append(x.targets, t)
		x.st, x.live = start, bTrue
		in.pcs = append(in.pcs, live)
		run()
		in.pcs = in.pcs[:len(in.pcs)-1]
		x.targets = x.targets[:len(x.targets)-1]
		endLive = x.live
		for _, sn := range t.cont {
			x.snapTo(child, sn)
		}
		more := false
		changed := x.st.since(child)
		for _, sn := range t.brk {
			for k, v := range sn.st.since(child) {
				if _, ok := changed[k]; !ok {
					changed[k] = v
				}
			}
		}
		for k := range changed {
			if _, ok := toks[k]; ok {
				continue
			}
			if o := in.objs[k.ref]; o != nil && o.id <= nobj && base.get(k) == nil {
				// an object from before whose field was not set yet
				if z := in.zeroField(o, k.field); z != nil {
					base.set(k, z)
				}
			}
			if base.get(k) != nil {
				toks[k] = 0
				more = true
			}
		}
		if !more {
			break
		}
	}
	_ = endLive
	in.loops = in.loops[:len(in.loops)-1]
	end := x.st
	early := bFalse
	for _, sn := range t.brk {
		early = in.bd.or(early, sn.c)
	}
	for i := nret; i < len(x.fr.rets); i++ {
		early = in.bd.or(early, x.fr.rets[i].c)
		x.fr.rets[i].c = in.bd.and(live, x.fr.rets[i].c)
	}
	ll := l
	if early != bFalse {
		k := l.key + "!" + strconv.Itoa(int(early))
		if ll = in.loopsM[k]; ll == nil {
			ll = &rloop{key: k, coll: l.coll, pos: l.pos, early: early, whole: l.key}
			in.loopsM[k] = ll
		}
	}
	final := map[skey]value{}
	for k, id := range toks {
		init := base.get(k)
		v := end.get(k)
		for _, sn := range t.brk {
			v = in.ite(sn.c, sn.st.get(k), v)
		}
		final[k] = in.afterLoop(ll, k, id, init, v)
	}
	// objects made in the loop stay readable
	for k, v := range end.since(child) {
		if _, ok := toks[k]; !ok && k.ref != "" {
			base.set(k, v)
		}
	}
	x.st, x.live = base, live
	for k, v := range final {
		x.st.set(k, v)
	}
}

func (in *interp) tokFor(l *rloop, k skey) int {
	in.ntok++
	return in.ntok
}

func (in *interp) placeholder(id int, v value) value {
	switch v := v.(type) {
	case *rope:
		return in.rs.token(id, nil)
	case bval:
		k := fmt.Sprintf("tok%d", id)
		return bval{in.bd.atom(k, "", k)}
	case *num:
		return &num{k: fmt.Sprintf("tok%d", id)}
	case *listv:
		return &listv{segs: []seg{{tok: id}}, typ: v.typ, make: v.make, made: v.made}
	case nilv:
		return v
	case *structv:
		out := &structv{typ: v.typ, base: v.base, over: map[string]value{}}
		if st, ok := v.typ.Underlying().(*types.Struct); ok && v.base == nil && !isBuffer(v.typ) {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if _, ok := v.over[f.Name()]; !ok {
					out.over[f.Name()] = in.placeholder(in.fieldTok(id, f.Name()), in.zero(f.Type()))
				}
			}
		}
		for f, o := range v.over {
			out.over[f] = in.placeholder(in.fieldTok(id, f), o)
		}
		return out
	case *sym:
		if v.typ != nil && isListValue(v) {
			return &listv{segs: []seg{{tok: id}}, typ: v.typ}
		}
		return v
	}
	return v
}

func (in *interp) fieldTok(id int, f string) int {
	h := 0
	for _, c := range f {
		h = (h*31 + int(c)) & 0xffff
	}
	return 1<<40 + id<<16 + h
}

func (in *interp) dependsOn(v value, id int) bool {
	switch v := v.(type) {
	case *rope:
		return in.rs.tokens(v)[id] > 0
	case *listv:
		return in.rs.segTokens(v.segs)[id] > 0
	case bval:
		return in.bd.hasAtom(v.b, fmt.Sprintf("tok%d", id))
	case *num:
		return strings.Contains(v.k, fmt.Sprintf("tok%d", id))
	case *itev:
		return in.dependsOn(v.a, id) || in.dependsOn(v.b, id)
	}
	return false
}

// afterLoop is the value of a variable after all iterations, given what one iteration makes of it.
func (in *interp) afterLoop(l *rloop, k skey, id int, init, v value) value {
	if v == nil {
		return init
	}
	some := in.nonemptyLoop(l)
	if b, ok := v.(bval); ok && init != nil {
		if tv, ok := in.bd.varOf[fmt.Sprintf("?tok%d", id)]; ok {
			k := fmt.Sprintf("after(%s,%d,%s)", l.key, b.b, init.key())
			in.flags[tv] = &loopFlag{loop: l.key, next: b.b, init: in.truth(init), after: in.bd.atom(k, "", k)}
		}
	}
	if init != nil && in.placeholder(id, init).key() == v.key() {
		return init
	}
	switch v := v.(type) {
	case *rope:
		i, ok := init.(*rope)
		if !ok {
			i = in.rs.empty
		}
		n := in.rs.tokens(v)[id]
		if n == 0 {
			return in.rs.ifelse(some, v, i)
		}
		parts := in.rs.parts(v)
		for j, p := range parts {
			if p.kind == rTok && p.tok == id && len(p.ops) == 0 && n == 1 {
				return in.rs.cat(in.rs.star(l, in.rs.cat(parts[:j]...)), i, in.rs.star(l, in.rs.cat(parts[j+1:]...)))
			}
		}
		if out := in.reassigned(l, id, i, v); out != nil {
			return out
		}
		if v.kind == rTok && v.tok == id {
			// changed again and again
			return in.rs.apply(i, op{kind: "other", a: "loop " + opsKey(v.ops)})
		}
		// the text so far is also used in another way: one arbitrary iteration after another
		once := in.rs.subst(v, id, in.rs.empty)
		return in.rs.ifelse(some, in.rs.subst(v, id, in.rs.cat(i, in.rs.star(l, once))), i)
	case *listv:
		if v.fill == l {
			return &listv{segs: v.segs, typ: v.typ}
		}
		var isegs []seg
		if init != nil {
			isegs = in.segsOf(init, l.pos)
		}
		n := in.rs.segTokens(v.segs)[id]
		if n == 0 {
			return &listv{segs: in.ifSegs(some, v.segs, isegs), typ: v.typ}
		}
		for j, s := range v.segs {
			if s.tok == id && n == 1 {
				var out []seg
				if j > 0 {
					out = append(out, seg{loop: l, a: v.segs[:j]})
				}
				out = append(out, isegs...)
				if j+1 < len(v.segs) {
					out = append(out, seg{loop: l, a: v.segs[j+1:]})
				}
				return &listv{segs: out, typ: v.typ}
			}
		}
		s := in.sym(sym{k: fmt.Sprintf("looplist(%s,%s)", l.key, v.key()), kind: "opaque", typ: v.typ})
		return s
	case bval:
		k := fmt.Sprintf("after(%s,%d,%s)", l.key, v.b, init.key())
		return bval{in.bd.ite(some, in.bd.atom(k, "", k), in.truth(init))}
	case *num:
		return &num{k: fmt.Sprintf("after(%s,%s)", l.key, v.k)}
	case *structv:
		if i, ok := init.(*structv); ok {
			out := &structv{typ: v.typ, base: v.base, over: map[string]value{}}
			st, _ := v.typ.Underlying().(*types.Struct)
			for f, o := range v.over {
				iv := i.over[f]
				if iv == nil && st != nil {
					for j := 0; j < st.NumFields(); j++ {
						if st.Field(j).Name() == f {
							iv = in.field(nil, i, st.Field(j))
						}
					}
				}
				out.over[f] = in.afterLoop(l, k, in.fieldTok(id, f), iv, o)
			}
			return out
		}
	case *mapv:
		return &mapv{keys: v.keys, vals: v.vals, rest: true, any: v.any, by: v.by, typ: v.typ}
	}
	return in.ite(some, v, init)
}

// reassigned handles a text that an iteration may keep, extend or set anew. Afterwards it is the
// text set last, or the first one, with what was added since.
func (in *interp) reassigned(l *rloop, id int, init, v *rope) *rope {
	ok := true
	isTok := func(r *rope) bool { return r.kind == rTok && r.tok == id && len(r.ops) == 0 }
	// split gives the text set anew (nil if kept) and what is added before and after
	var split func(r *rope) (set, pre, post *rope)
	split = func(r *rope) (*rope, *rope, *rope) {
		e := in.rs.empty
		n := in.rs.tokens(r)[id]
		switch {
		case n == 0:
			return r, e, e
		case isTok(r):
			return nil, e, e
		case r.kind == rIf:
			s1, a1, b1 := split(r.a)
			s2, a2, b2 := split(r.b)
			s := s1
			if s1 == nil {
				s = s2
			} else if s2 != nil {
				s = in.rs.ifelse(r.c, s1, s2)
			}
			return s, in.rs.ifelse(r.c, a1, a2), in.rs.ifelse(r.c, b1, b2)
		case r.kind == rCat && n == 1:
			for j, p := range r.parts {
				if in.rs.tokens(p)[id] > 0 {
					s, a, b := split(p)
					return s, in.rs.cat(append(append([]*rope{}, r.parts[:j]...), a)...), in.rs.cat(append([]*rope{b}, r.parts[j+1:]...)...)
				}
			}
		}
		ok = false
		return nil, e, e
	}
	set, pre, post := split(v)
	if !ok {
		return nil
	}
	first := init
	if set != nil {
		k := fmt.Sprintf("set(%s,%s)", l.key, v.key())
		first = in.rs.ifelse(in.bd.atom(k, "", k), set, init)
	}
	return in.rs.cat(in.rs.star(l, pre), first, in.rs.star(l, post))
}

// assignment

func (x *exec) assignStmt(s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		l := x.eval(s.Lhs[0])
		r := x.eval(s.Rhs[0])
		var v value
		switch s.Tok {
		case token.ADD_ASSIGN:
			v = x.in.add(l, r)
		default:
			v = x.in.opaque(s.Tok.String(), x.fr.info.TypeOf(s.Lhs[0]), 0, l, r)
		}
		x.assign(s.Lhs[0], v)
		return
	}
	var vs []value
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		vs = x.evalMulti(s.Rhs[0])
	} else {
		for _, e := range s.Rhs {
			vs = append(vs, x.eval(e))
		}
	}
	for i, l := range s.Lhs {
		if i >= len(vs) {
			break
		}
		if id, ok := l.(*ast.Ident); ok && s.Tok == token.DEFINE {
			if o := x.fr.info.Defs[id]; o != nil {
				x.set(o, vs[i])
				continue
			}
		}
		x.assign(l, vs[i])
	}
}

func (x *exec) assign(e ast.Expr, v value) {
	if v == nil {
		return
	}
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		if e.Name == "_" {
			return
		}
		o := x.fr.info.ObjectOf(e)
		if o == nil {
			return
		}
		if f := x.frameOf(o); f != nil {
			x.st.set(skey{fr: f.id, obj: o}, v)
			return
		}
		if tv, ok := o.(*types.Var); ok && tv.Pkg() != nil && tv.Parent() == tv.Pkg().Scope() {
			return // package variables that change are unknown anyway
		}
		x.set(o, v)
	case *ast.SelectorExpr:
		sel := x.fr.info.Selections[e]
		if sel == nil {
			return
		}
		f, ok := sel.Obj().(*types.Var)
		if !ok {
			return
		}
		bv := x.eval(e.X)
		// through embedded fields
		bt := x.fr.info.TypeOf(e.X)
		idx := sel.Index()
		for _, i := range idx[:len(idx)-1] {
			if st, ok := deref(bt).Underlying().(*types.Struct); ok {
				ef := st.Field(i)
				bv = x.in.field(x, bv, ef)
				bt = ef.Type()
			}
		}
		if _, isptr := bt.Underlying().(*types.Pointer); isptr || len(idx) > 1 {
			x.setField(bv, f, v, bTrue)
			return
		}
		x.assign(e.X, x.in.withField(bv, f, v, bt))
	case *ast.IndexExpr:
		bv := x.eval(e.X)
		kv := x.eval(e.Index)
		if _, ok := x.fr.info.TypeOf(e.X).Underlying().(*types.Map); ok {
			x.assign(e.X, x.in.mapSet(x, bv, kv, v))
			return
		}
		x.assign(e.X, x.in.listSet(bv, kv, v, e.Pos()))
	case *ast.StarExpr:
		if p, ok := x.eval(e.X).(ptrv); ok {
			x.st.set(p.k, v)
		}
	}
}

func (x *exec) setField(b value, f *types.Var, v value, c bdd) {
	put := func(ref string) {
		k := skey{ref: ref, field: f.Name()}
		if c != bTrue {
			old := x.st.get(k)
			if old == nil {
				old = x.in.field(x, b, f)
			}
			v = x.in.ite(c, v, old)
		}
		x.st.set(k, v)
	}
	switch b := b.(type) {
	case *obj:
		put(b.key())
	case *sym:
		x.in.symgen++
		put(b.k)
	case ptrv:
		old := x.st.get(b.k)
		if old != nil {
			nv := x.in.withField(old, f, v, b.typ(x))
			x.st.set(b.k, x.in.ite(c, nv, old))
		}
	case *itev:
		x.setField(b.a, f, v, x.in.bd.and(c, b.c))
		x.setField(b.b, f, v, x.in.bd.and(c, x.in.bd.not(b.c)))
	}
}

func (p ptrv) typ(x *exec) types.Type {
	if p.k.obj != nil {
		return p.k.obj.Type()
	}
	return types.Typ[types.Invalid]
}

func (in *interp) mapSet(x *exec, m, k, v value) value {
	ks, ok := "", false
	if r, isr := k.(*rope); isr {
		ks, ok = constText(r)
	} else if n, isn := k.(*num); isn && n.isc {
		ks, ok = n.k, true
	}
	switch m := m.(type) {
	case *mapv:
		out := &mapv{keys: append([]string{}, m.keys...), vals: map[string]value{}, rest: m.rest, any: m.any, by: m.by, typ: m.typ}
		for a, b := range m.vals {
			out.vals[a] = b
		}
		if !ok {
			out.rest = true
			out.any = addAny(out.any, v)
			out.by = addAny(out.by, k)
			return out
		}
		if _, has := out.vals[ks]; !has {
			out.keys = append(out.keys, ks)
		}
		out.vals[ks] = v
		return out
	case *sym:
		in.symgen++
		x.st.set(skey{ref: m.k, field: "[" + k.key() + "]"}, v)
		return m
	}
	return m
}

func (in *interp) listSet(l, k, v value, pos token.Pos) value {
	lv, ok := l.(*listv)
	if !ok {
		return l
	}
	if n, ok := k.(*num); ok {
		if n.isc && int(n.c) < len(lv.segs) {
			plain := true
			for _, s := range lv.segs[:n.c+1] {
				if s.loop != nil || s.ifelse || s.tok > 0 {
					plain = false
				}
			}
			if plain {
				segs := append([]seg{}, lv.segs...)
				segs[n.c] = seg{v: v}
				return &listv{segs: segs, typ: lv.typ}
			}
		}
		if lv.make != nil && n.idx == lv.made && len(in.loops) > 0 {
			cur := in.loops[len(in.loops)-1]
			if cur.key == lv.make.key {
				return &listv{segs: []seg{{loop: cur, a: []seg{{v: v}}}}, typ: lv.typ, fill: cur}
			}
		}
	}
	return in.sym(sym{k: fmt.Sprintf("listset(%s,%s,%s)", l.key(), k.key(), v.key()), kind: "opaque", typ: lv.typ, args: []value{l, v}})
}
