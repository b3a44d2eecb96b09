package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// expressions

func (x *exec) evalMulti(e ast.Expr) []value {
	e = ast.Unparen(e)
	switch e := e.(type) {
	case *ast.CallExpr:
		return x.callExpr(e)
	case *ast.IndexExpr:
		if t, ok := x.fr.info.TypeOf(e).(*types.Tuple); ok && t.Len() == 2 {
			m, k := x.eval(e.X), x.eval(e.Index)
			v, okc := x.in.mapGet(x, m, k, t.At(0).Type())
			return []value{v, bval{okc}}
		}
	case *ast.TypeAssertExpr:
		if t, ok := x.fr.info.TypeOf(e).(*types.Tuple); ok && t.Len() == 2 {
			v := x.eval(e.X)
			return []value{x.in.opaque("assert."+t.At(0).Type().String(), t.At(0).Type(), 0, v), x.in.opaque("isa."+t.At(0).Type().String(), types.Typ[types.Bool], 0, v)}
		}
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			if t, ok := x.fr.info.TypeOf(e).(*types.Tuple); ok {
				var l []value
				for i := 0; i < t.Len(); i++ {
					l = append(l, x.in.opaque("recv"+strconv.Itoa(i), t.At(i).Type(), e.Pos()))
				}
				return l
			}
		}
	}
	return []value{x.eval(e)}
}

func (x *exec) eval(e ast.Expr) value {
	v := x.eval1(e)
	if v == nil {
		return x.in.opaque("expr", x.fr.info.TypeOf(e), e.Pos())
	}
	return v
}

func (x *exec) eval1(e ast.Expr) value {
	in := x.in
	e = ast.Unparen(e)
	if tv, ok := x.fr.info.Types[e]; ok {
		if tv.Value != nil {
			if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.ADD && tv.Value.Kind() == constant.String {
				return in.add(x.eval(b.X), x.eval(b.Y))
			}
			return in.konst(tv.Value, tv.Type, e.Pos())
		}
		if tv.IsNil() {
			if tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Slice); ok {
					return &listv{typ: tv.Type}
				}
			}
			return nilv{}
		}
	}
	switch e := e.(type) {
	case *ast.Ident:
		o := x.fr.info.ObjectOf(e)
		switch o := o.(type) {
		case *types.Func:
			return &fnv{fn: o.Origin()}
		case *types.Nil:
			return nilv{}
		case nil:
			return nil
		}
		return x.lookup(o)
	case *ast.SelectorExpr:
		return x.selector(e)
	case *ast.CallExpr:
		vs := x.callExpr(e)
		if len(vs) == 0 {
			return nil
		}
		return vs[0]
	case *ast.BinaryExpr:
		return x.binary(e)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return bval{in.bd.not(in.truth(x.eval(e.X)))}
		case token.SUB:
			v := x.eval(e.X)
			if n, ok := v.(*num); ok && n.isc {
				return in.num(-n.c)
			}
			return in.opaque("neg", x.fr.info.TypeOf(e), 0, v)
		case token.AND:
			return x.address(e.X)
		}
		return in.opaque(e.Op.String(), x.fr.info.TypeOf(e), e.Pos())
	case *ast.StarExpr:
		v := x.eval(e.X)
		switch v := v.(type) {
		case ptrv:
			return x.st.get(v.k)
		case *obj:
			out := &structv{typ: v.typ, over: map[string]value{}}
			if st, ok := v.typ.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					out.over[st.Field(i).Name()] = in.field(x, v, st.Field(i))
				}
			}
			return out
		case *sym:
			return &structv{typ: x.fr.info.TypeOf(e), base: v, over: map[string]value{}}
		}
		return in.opaque("deref", x.fr.info.TypeOf(e), 0, v)
	case *ast.IndexExpr:
		if _, ok := x.fr.info.TypeOf(e.X).(*types.Signature); ok {
			return x.eval(e.X)
		}
		b, k := x.eval(e.X), x.eval(e.Index)
		t := x.fr.info.TypeOf(e)
		switch x.fr.info.TypeOf(e.X).Underlying().(type) {
		case *types.Map:
			v, _ := in.mapGet(x, b, k, t)
			return v
		case *types.Basic:
			return in.opaque("char", t, 0, b, k)
		}
		return in.index(x, b, k, t)
	case *ast.SliceExpr:
		b := x.eval(e.X)
		var lo, hi value
		if e.Low != nil {
			lo = x.eval(e.Low)
		}
		if e.High != nil {
			hi = x.eval(e.High)
		}
		if r, ok := b.(*rope); ok {
			return in.sliceText(r, lo, hi)
		}
		return in.slice(b, lo, hi, e.Pos())
	case *ast.CompositeLit:
		return x.composite(e)
	case *ast.FuncLit:
		in.nlit++
		return &fnv{lit: e, fr: x.fr, id: in.nlit}
	case *ast.TypeAssertExpr:
		v := x.eval(e.X)
		if o, ok := v.(*obj); ok {
			return o
		}
		return in.opaque("assert."+x.fr.info.TypeOf(e).String(), x.fr.info.TypeOf(e), 0, v)
	}
	return nil
}

func (x *exec) address(e ast.Expr) value {
	in := x.in
	e = ast.Unparen(e)
	switch e := e.(type) {
	case *ast.CompositeLit:
		v := x.composite(e)
		if s, ok := v.(*structv); ok {
			o := in.alloc(s.typ, e.Pos())
			for f, fv := range s.over {
				x.st.set(skey{ref: o.key(), field: f}, fv)
			}
			return o
		}
		return v
	case *ast.Ident:
		o := x.fr.info.ObjectOf(e)
		if o != nil {
			if f := x.frameOf(o); f != nil {
				return ptrv{skey{fr: f.id, obj: o}}
			}
		}
	}
	return x.eval(e)
}

func (in *interp) alloc(t types.Type, pos token.Pos) *obj {
	in.nobj++
	o := &obj{id: in.nobj, typ: t, pos: pos}
	in.objs[o.key()] = o
	return o
}

func (x *exec) composite(e *ast.CompositeLit) value {
	in := x.in
	t := x.fr.info.TypeOf(e)
	switch u := deref(t).Underlying().(type) {
	case *types.Struct:
		out := &structv{typ: deref(t), over: map[string]value{}}
		if isBuffer(deref(t)) {
			out.over["buf"] = in.rs.empty
		}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if id, ok := kv.Key.(*ast.Ident); ok {
					out.over[id.Name] = x.eval(kv.Value)
				}
			} else if i < u.NumFields() {
				out.over[u.Field(i).Name()] = x.eval(el)
			}
		}
		if _, ok := t.(*types.Pointer); ok {
			o := in.alloc(out.typ, e.Pos())
			for f, fv := range out.over {
				x.st.set(skey{ref: o.key(), field: f}, fv)
			}
			return o
		}
		return out
	case *types.Slice, *types.Array:
		out := &listv{typ: t}
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				el = kv.Value
			}
			out.segs = append(out.segs, seg{v: x.eval(el)})
		}
		return out
	case *types.Map:
		out := &mapv{vals: map[string]value{}, typ: t}
		for _, el := range e.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok {
				continue
			}
			if m, ok := in.mapSet(x, out, x.eval(kv.Key), x.eval(kv.Value)).(*mapv); ok {
				out = m
			}
		}
		return out
	}
	return nil
}

func (x *exec) selector(e *ast.SelectorExpr) value {
	in := x.in
	sel := x.fr.info.Selections[e]
	if sel == nil {
		switch o := x.fr.info.Uses[e.Sel].(type) {
		case *types.Var:
			if in.r.pkgOf[o.Pkg()] != nil {
				return in.global(o)
			}
			return in.opaque(o.Pkg().Name()+"."+o.Name(), o.Type(), 0)
		case *types.Func:
			return &fnv{fn: o.Origin()}
		}
		return nil
	}
	v := x.eval(e.X)
	t := x.fr.info.TypeOf(e.X)
	switch sel.Kind() {
	case types.FieldVal:
		for _, i := range sel.Index() {
			st, ok := deref(t).Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			f := st.Field(i)
			v = in.field(x, v, f)
			t = f.Type()
		}
		return v
	case types.MethodVal:
		if f, ok := sel.Obj().(*types.Func); ok {
			return &fnv{fn: f.Origin(), recv: v}
		}
	}
	return nil
}

func (in *interp) add(a, b value) value {
	switch p := a.(type) {
	case *rope:
		if q, ok := b.(*rope); ok {
			return in.rs.cat(p, q)
		}
	case *num:
		if q, ok := b.(*num); ok {
			if p.isc && q.isc {
				return in.num(p.c + q.c)
			}
			if p.isc && p.c == 0 {
				return q
			}
			if q.isc && q.c == 0 {
				return p
			}
			n := &num{k: "(" + p.k + "+" + q.k + ")"}
			if p.lenOf != nil && q.isc && q.c == -1 {
				n.lenOf = p.lenOf
			}
			return n
		}
	}
	if a == nil || b == nil {
		return nil
	}
	return in.opaque("+", nil, 0, a, b)
}

func (x *exec) binary(e *ast.BinaryExpr) value {
	in := x.in
	switch e.Op {
	case token.LAND:
		a := in.truth(x.eval(e.X))
		if a == bFalse {
			return bval{bFalse}
		}
		return bval{in.bd.and(a, in.truth(x.eval(e.Y)))}
	case token.LOR:
		a := in.truth(x.eval(e.X))
		if a == bTrue {
			return bval{bTrue}
		}
		return bval{in.bd.or(a, in.truth(x.eval(e.Y)))}
	}
	a, b := x.eval(e.X), x.eval(e.Y)
	switch e.Op {
	case token.ADD:
		return in.add(a, b)
	case token.SUB:
		p, ok1 := a.(*num)
		q, ok2 := b.(*num)
		if ok1 && ok2 {
			if q.isc {
				return in.add(p, in.num(-q.c))
			}
			return &num{k: "(" + p.k + "-" + q.k + ")"}
		}
	case token.MUL, token.QUO, token.REM:
		p, ok1 := a.(*num)
		q, ok2 := b.(*num)
		if ok1 && ok2 {
			if p.isc && q.isc && e.Op == token.MUL {
				return in.num(p.c * q.c)
			}
			return &num{k: "(" + p.k + e.Op.String() + q.k + ")"}
		}
	case token.EQL:
		return bval{in.eq(a, b)}
	case token.NEQ:
		return bval{in.bd.not(in.eq(a, b))}
	case token.LSS:
		return bval{in.less(a, b)}
	case token.GTR:
		return bval{in.less(b, a)}
	case token.LEQ:
		return bval{in.bd.not(in.less(b, a))}
	case token.GEQ:
		return bval{in.bd.not(in.less(a, b))}
	}
	return in.opaque(e.Op.String(), x.fr.info.TypeOf(e), 0, a, b)
}

func (in *interp) mapGet(x *exec, m, k value, t types.Type) (value, bdd) {
	switch m := m.(type) {
	case *itev:
		a, oka := in.mapGet(x, m.a, k, t)
		b, okb := in.mapGet(x, m.b, k, t)
		return in.ite(m.c, a, b), in.bd.ite(m.c, oka, okb)
	case *mapv:
		if r, ok := k.(*rope); ok {
			if r.kind == rIf && !m.rest && len(in.rs.show(r, 8)) < 2000 {
				a, oka := in.mapGet(x, m, r.a, t)
				b, okb := in.mapGet(x, m, r.b, t)
				return in.ite(r.c, a, b), in.bd.ite(r.c, oka, okb)
			}
			if s, ok := constText(r); ok {
				if v, ok := m.vals[s]; ok {
					return v, bTrue
				}
				if !m.rest {
					return in.zero(t), bFalse
				}
			}
		}
		if len(m.keys) == 0 && !m.rest {
			return in.zero(t), bFalse
		}
		if len(m.any) > 0 || len(m.keys) > 0 {
			// any of the entries, or none
			kk := m.key() + "[" + k.key() + "]"
			ok := in.bd.atom("has("+kk+")", "", "has("+kk+")")
			var all []value
			for _, n := range m.keys {
				all = addAny(all, m.vals[n])
			}
			all = addAny(all, m.any...)
			v := all[len(all)-1]
			for i := 0; i < len(all)-1; i++ {
				c := in.bd.atom(fmt.Sprintf("%s is entry %d", kk, i), kk, fmt.Sprintf("entry %d", i))
				v = in.ite(c, all[i], v)
			}
			return in.ite(ok, v, in.zero(t)), ok
		}
	case nilv:
		return in.zero(t), bFalse
	case *sym:
		if v := x.st.get(skey{ref: m.k, field: "[" + k.key() + "]"}); v != nil {
			return v, bTrue
		}
		if r, ok := k.(*rope); ok && r.kind == rHole && len(r.ops) == 0 && r.sym.kind == "mapkey" {
			if b, ok := r.sym.base.(*sym); ok && b == m {
				return in.val(in.sym(sym{k: r.sym.name + "[*]", kind: "elem", base: m, typ: elemTypeOf(m.typ)})), bTrue
			}
		}
	}
	key := "[" + k.key() + "]"
	if r, ok := k.(*rope); ok {
		if s, ok := constText(r); ok {
			key = "[" + strconv.Quote(s) + "]"
		} else if r.kind == rHole {
			key = "[" + r.sym.k + opsKey(r.ops) + "]"
		}
	}
	s := in.sym(sym{k: m.key() + key, kind: "index", base: m, name: key, typ: t, args: []value{k}})
	ok := in.bd.atom("has("+s.k+")", "", "has("+in.symText(s)+")")
	return in.val(s), ok
}

func (in *interp) index(x *exec, b, k value, t types.Type) value {
	n, _ := k.(*num)
	switch l := b.(type) {
	case *itev:
		return in.ite(l.c, in.index(x, l.a, k, t), in.index(x, l.b, k, t))
	case *listv:
		if n != nil && n.isc && int(n.c) < len(l.segs) && n.c >= 0 {
			plain := true
			for _, s := range l.segs[:n.c+1] {
				if s.loop != nil || s.ifelse || s.tok > 0 {
					plain = false
				}
			}
			if plain {
				return l.segs[n.c].v
			}
		}
		if n != nil && n.lenOf != nil && n.lenOf.key() == l.key() && strings.HasSuffix(n.k, "+-1)") && len(l.segs) > 0 {
			if s := l.segs[len(l.segs)-1]; s.loop == nil && !s.ifelse && s.tok == 0 {
				return s.v
			}
		}
		if n != nil && n.idx == l.key() {
			for _, s := range l.segs {
				if s.loop != nil && len(s.a) == 1 && s.a[0].v != nil && n.k == "idx("+s.loop.key+")" {
					return s.a[0].v
				}
			}
		}
		return in.val(in.sym(sym{k: l.key() + "[" + k.key() + "]", kind: "index", base: l, name: "[" + k.key() + "]", typ: t, args: []value{l}}))
	case *sym:
		if n != nil && n.idx == l.k && strings.HasPrefix(n.k, "idx(") {
			lk := strings.TrimSuffix(strings.TrimPrefix(n.k, "idx("), ")")
			return in.val(in.sym(sym{k: lk + "[*]", kind: "elem", base: l, typ: t}))
		}
	}
	return in.val(in.sym(sym{k: b.key() + "[" + k.key() + "]", kind: "index", base: b, name: "[" + k.key() + "]", typ: t}))
}

func (in *interp) slice(b, lo, hi value, pos token.Pos) value {
	if n, ok := lo.(*num); ok && n.isc && n.c == 0 {
		lo = nil
	}
	if n, ok := hi.(*num); ok && n.lenOf != nil && n.lenOf.key() == b.key() && !strings.HasSuffix(n.k, "+-1)") {
		hi = nil
	}
	if lo == nil && hi == nil {
		return b
	}
	if l, ok := b.(*listv); ok {
		plain := true
		for _, s := range l.segs {
			if s.loop != nil || s.ifelse || s.tok > 0 {
				plain = false
			}
		}
		if plain {
			i, j := 0, len(l.segs)
			okc := true
			if n, ok := lo.(*num); lo != nil {
				if ok && n.isc {
					i = int(n.c)
				} else {
					okc = false
				}
			}
			if n, ok := hi.(*num); hi != nil {
				if ok && n.isc {
					j = int(n.c)
				} else {
					okc = false
				}
			}
			if okc && i >= 0 && i <= j && j <= len(l.segs) {
				return &listv{segs: l.segs[i:j], typ: l.typ}
			}
		}
	}
	if i, ok := b.(*itev); ok {
		return in.ite(i.c, in.slice(i.a, lo, hi, pos), in.slice(i.b, lo, hi, pos))
	}
	k := b.key() + "["
	if lo != nil {
		k += lo.key()
	}
	k += ":"
	if hi != nil {
		k += hi.key()
	}
	k += "]"
	return in.val(in.sym(sym{k: k, kind: "slice", base: b, typ: listType(b), args: []value{b}}))
}

func (in *interp) sliceText(r *rope, lo, hi value) value {
	if n, ok := lo.(*num); ok && n.isc && n.c == 0 {
		lo = nil
	}
	if lo == nil && hi == nil {
		return r
	}
	nl, okl := lo.(*num)
	nh, okh := hi.(*num)
	if s, ok := constText(r); ok && (lo == nil || okl && nl.isc) && (hi == nil || okh && nh.isc) {
		i, j := 0, len(s)
		if lo != nil {
			i = int(nl.c)
		}
		if hi != nil {
			j = int(nh.c)
		}
		if i >= 0 && i <= j && j <= len(s) {
			return in.rs.konst(s[i:j], r.pos)
		}
	}
	n, m := 0, 0
	okn, okm := lo == nil, hi == nil
	if okl && nl.isc && nl.c >= 0 {
		n, okn = int(nl.c), true
	}
	if okh {
		if _, err := fmt.Sscanf(strings.TrimPrefix(nh.k, "(len("+r.key()+")"), "+-%d)", &m); err == nil {
			okm = true
		}
	}
	if okn && okm {
		return in.cutText(r, n, m)
	}
	a, b := "", ""
	if lo != nil {
		a = lo.key()
	}
	if hi != nil {
		b = hi.key()
	}
	return in.rs.apply(r, op{kind: "slice", a: a, b: b})
}

// cutText leaves out n characters at the start of a text and m at its end.
func (in *interp) cutText(r *rope, n, m int) *rope {
	switch r.kind {
	case rConst:
		if n+m <= len(r.s) {
			return in.rs.konst(r.s[n:len(r.s)-m], r.pos)
		}
	case rIf:
		return in.rs.ifelse(r.c, in.cutText(r.a, n, m), in.cutText(r.b, n, m))
	case rCat:
		first, last := r.parts[0], r.parts[len(r.parts)-1]
		if (n == 0 || first.kind == rConst && len(first.s) >= n) && (m == 0 || last.kind == rConst && len(last.s) >= m) {
			l := append([]*rope{}, r.parts...)
			if n > 0 {
				l[0] = in.rs.konst(first.s[n:], first.pos)
			}
			if m > 0 {
				l[len(l)-1] = in.rs.konst(last.s[:len(last.s)-m], last.pos)
			}
			return in.rs.cat(l...)
		}
	}
	return in.rs.apply(r, op{kind: "slice", a: strconv.Itoa(n), b: "len-" + strconv.Itoa(m)})
}

// calls

func (x *exec) callExpr(e *ast.CallExpr) []value {
	info := x.fr.info
	fun := ast.Unparen(e.Fun)
	// conversion
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		v := x.eval(e.Args[0])
		return []value{x.convert(v, info.TypeOf(e.Args[0]), tv.Type)}
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			return x.builtin(b.Name(), e)
		}
	}
	// methods of text buffers work on the variable itself
	if s, ok := fun.(*ast.SelectorExpr); ok {
		if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
			if vs, ok := x.buffer(s, sel, e); ok {
				return vs
			}
		}
	}
	fv := x.eval(fun)
	var args []value
	if len(e.Args) == 1 {
		if t, ok := info.TypeOf(e.Args[0]).(*types.Tuple); ok && t.Len() > 1 {
			args = x.evalMulti(e.Args[0])
		}
	}
	if args == nil {
		for _, a := range e.Args {
			args = append(args, x.eval(a))
		}
	}
	sig, _ := info.TypeOf(fun).Underlying().(*types.Signature)
	if sig == nil {
		return nil
	}
	if sig.Variadic() && !e.Ellipsis.IsValid() {
		n := sig.Params().Len() - 1
		if len(args) >= n {
			rest := &listv{typ: sig.Params().At(n).Type()}
			for _, a := range args[n:] {
				rest.segs = append(rest.segs, seg{v: a})
			}
			args = append(append([]value{}, args[:n]...), rest)
		}
	}
	return x.callValue(fv, sig, args, e.Pos())
}

func (x *exec) callValue(fv value, sig *types.Signature, args []value, pos token.Pos) []value {
	in := x.in
	switch f := fv.(type) {
	case *fnv:
		if f.lit != nil {
			return x.closure(f, args)
		}
		recv := f.recv
		fn := f.fn
		if recv != nil {
			fn = in.dispatch(fn, recv)
			if fn == nil {
				return in.results(nil, sig, append([]value{recv}, args...), "call", pos)
			}
		}
		if in.r.pkgOf[fn.Pkg()] != nil {
			return in.call(x, fn, recv, args, pos)
		}
		return in.external(x, fn, recv, args, pos)
	case *itev:
		a := x.callBranch(f.c, func() []value { return x.callValue(f.a, sig, args, pos) }, func() []value { return x.callValue(f.b, sig, args, pos) })
		return a
	}
	return in.results(nil, sig, append([]value{fv}, args...), "call", pos)
}

func (x *exec) callBranch(c bdd, f, g func() []value) []value {
	var a, b []value
	x.branch(c, func() { a = f() }, func() { b = g() })
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	out := make([]value, len(a))
	for i := range a {
		out[i] = x.in.ite(c, a[i], b[i])
	}
	return out
}

// dispatch finds the method behind an interface call when the value is known.
func (in *interp) dispatch(fn *types.Func, recv value) *types.Func {
	sig := fn.Type().(*types.Signature)
	if sig.Recv() == nil {
		return fn
	}
	if _, ok := sig.Recv().Type().Underlying().(*types.Interface); !ok {
		return fn
	}
	var t types.Type
	switch r := recv.(type) {
	case *obj:
		t = types.NewPointer(r.typ)
	case *structv:
		t = r.typ
	}
	if t == nil {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, fn.Pkg(), fn.Name())
	if m, ok := o.(*types.Func); ok {
		return m
	}
	return nil
}

func (x *exec) closure(f *fnv, args []value) []value {
	in := x.in
	sig, _ := f.fr.info.TypeOf(f.lit).(*types.Signature)
	if sig == nil || len(in.stack) > 80 {
		return nil
	}
	in.nframe++
	fr := &ropeFrame{id: in.nframe, up: f.fr, info: f.fr.info, sig: sig, fn: f.fr.fn}
	y := &exec{in: in, fr: fr, st: newStore(x.st), live: bTrue}
	y.bindParams(nil, f.lit.Type, nil, args)
	in.stack = append(in.stack, nil)
	in.pcs = append(in.pcs, x.live)
	y.block(f.lit.Body.List)
	in.pcs = in.pcs[:len(in.pcs)-1]
	in.stack = in.stack[:len(in.stack)-1]
	vs := y.finish(f.lit.Type)
	for k, v := range y.st.since(x.st) {
		x.st.set(k, v)
	}
	return vs
}

func (x *exec) convert(v value, from, to types.Type) value {
	tb, ok := to.Underlying().(*types.Basic)
	if ok && tb.Info()&types.IsString != 0 {
		if r, ok := v.(*rope); ok {
			return r
		}
		if fb, ok := from.Underlying().(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
			return x.in.runeText(v, 0)
		}
		if l, ok := v.(*listv); ok {
			if r := x.in.bytesText(l.segs); r != nil {
				return r
			}
		}
		if s, ok := v.(*sym); ok {
			return x.in.rs.hole(x.in.sym(sym{k: s.k + ".text", kind: "field", base: s, name: "(text)", typ: to, args: s.args}), nil)
		}
		return x.in.opaque("string", to, 0, v)
	}
	return v
}

// runeText is the text of a single character.
func (in *interp) runeText(v value, pos token.Pos) *rope {
	if n, ok := v.(*num); ok {
		if n.isc {
			return in.rs.konst(string(rune(n.c)), pos)
		}
		if strings.HasPrefix(n.k, "char(") {
			return in.rs.hole(in.sym(sym{k: n.k, kind: "char", typ: types.Typ[types.String]}), nil)
		}
	}
	return in.opaque("rune", types.Typ[types.String], 0, v).(*rope)
}

// bytesText is the text of a list of bytes, or nil.
func (in *interp) bytesText(segs []seg) *rope {
	var l []*rope
	for _, s := range segs {
		switch {
		case s.tok > 0:
			return nil
		case s.ifelse:
			a, b := in.bytesText(s.a), in.bytesText(s.b)
			if a == nil || b == nil {
				return nil
			}
			l = append(l, in.rs.ifelse(s.c, a, b))
		case s.loop != nil:
			a := in.bytesText(s.a)
			if a == nil {
				return nil
			}
			l = append(l, in.rs.star(s.loop, a))
		default:
			switch v := s.v.(type) {
			case *rope:
				l = append(l, v)
			case *num:
				if !v.isc && !strings.HasPrefix(v.k, "char(") {
					return nil
				}
				l = append(l, in.runeText(v, 0))
			default:
				return nil
			}
		}
	}
	return in.rs.cat(l...)
}

// textLen is the length of a text, by cases if it is one of several.
func (in *interp) textLen(l *rope, depth int) *num {
	if s, ok := constText(l); ok {
		return in.num(int64(len(s)))
	}
	n := &num{k: "len(" + l.key() + ")", textOf: l}
	if l.kind == rIf && depth < 4 {
		n.alt = &numAlt{c: l.c, a: in.textLen(l.a, depth+1), b: in.textLen(l.b, depth+1), depth: depth + 1}
	}
	return n
}

func (x *exec) builtin(name string, e *ast.CallExpr) []value {
	in := x.in
	info := x.fr.info
	switch name {
	case "len":
		v := x.eval(e.Args[0])
		switch l := v.(type) {
		case *rope:
			return []value{in.textLen(l, 0)}
		case *listv:
			plain := true
			for _, s := range l.segs {
				if s.loop != nil || s.ifelse || s.tok > 0 {
					plain = false
				}
			}
			if plain && l.make == nil {
				return []value{in.num(int64(len(l.segs)))}
			}
		case *mapv:
			if !l.rest {
				return []value{in.num(int64(len(l.keys)))}
			}
			return []value{&num{k: "len(" + l.key() + ")"}}
		}
		n := &num{k: "len(" + v.key() + ")"}
		if isListValue(v) {
			n.lenOf = v
		} else if s, ok := v.(*sym); ok && s.typ != nil {
			if _, ok := s.typ.Underlying().(*types.Map); ok {
				n.lenOf = v
			}
		}
		return []value{n}
	case "append":
		l := x.eval(e.Args[0])
		segs := append([]seg{}, in.segsOf(l, e.Pos())...)
		t := info.TypeOf(e)
		for i, a := range e.Args[1:] {
			v := x.eval(a)
			if e.Ellipsis.IsValid() && i == len(e.Args)-2 {
				if r, ok := v.(*rope); ok { // append([]byte, string...)
					segs = append(segs, seg{v: r})
					continue
				}
				segs = append(segs, in.segsOf(v, e.Pos())...)
			} else {
				segs = append(segs, seg{v: v})
			}
		}
		return []value{&listv{segs: segs, typ: t}}
	case "new":
		t := info.TypeOf(e.Args[0])
		return []value{in.alloc(t, e.Pos())}
	case "make":
		t := info.TypeOf(e.Args[0])
		switch t.Underlying().(type) {
		case *types.Map:
			return []value{&mapv{vals: map[string]value{}, typ: t}}
		case *types.Slice:
			if len(e.Args) > 1 {
				n, _ := x.eval(e.Args[1]).(*num)
				if n != nil && n.isc && n.c == 0 {
					return []value{&listv{typ: t}}
				}
				if n != nil && n.lenOf != nil && !strings.HasSuffix(n.k, "+-1)") {
					segs := in.segsOf(n.lenOf, e.Pos())
					if len(segs) == 1 && segs[0].loop != nil {
						return []value{&listv{typ: t, make: segs[0].loop, made: n.lenOf.key(), segs: []seg{{loop: segs[0].loop, a: []seg{{v: in.zero(elemTypeOf(t))}}}}}}
					}
				}
			}
			return []value{in.opaque("make", t, e.Pos())}
		}
		return []value{in.opaque("make", t, e.Pos())}
	case "panic":
		x.live = bFalse
		return nil
	case "min", "max", "cap", "copy":
		var args []value
		for _, a := range e.Args {
			args = append(args, x.eval(a))
		}
		return []value{in.opaque(name, info.TypeOf(e), 0, args...)}
	}
	for _, a := range e.Args {
		x.eval(a)
	}
	if t := info.TypeOf(e); t != nil {
		return []value{in.opaque(name, t, e.Pos())}
	}
	return nil
}

// buffer models strings.Builder and bytes.Buffer variables.
func (x *exec) buffer(s *ast.SelectorExpr, sel *types.Selection, e *ast.CallExpr) ([]value, bool) {
	in := x.in
	t := deref(x.fr.info.TypeOf(s.X))
	if !isBuffer(t) {
		return nil, false
	}
	cur := func() *rope {
		v := x.eval(s.X)
		if p, ok := v.(ptrv); ok {
			v = x.st.get(p.k)
		}
		switch v := v.(type) {
		case *structv:
			if r, ok := v.over["buf"].(*rope); ok {
				return r
			}
		case *obj:
			if r, ok := x.st.get(skey{ref: v.key(), field: "buf"}).(*rope); ok {
				return r
			}
		}
		return in.rs.empty
	}
	put := func(r *rope) {
		v := x.eval(s.X)
		switch p := v.(type) {
		case ptrv:
			x.st.set(p.k, &structv{typ: t, over: map[string]value{"buf": r}})
		case *obj:
			x.st.set(skey{ref: p.key(), field: "buf"}, r)
		default:
			x.assign(s.X, &structv{typ: t, over: map[string]value{"buf": r}})
		}
	}
	switch sel.Obj().Name() {
	case "WriteString", "Write":
		v := x.eval(e.Args[0])
		if r, ok := v.(*rope); ok {
			put(in.rs.cat(cur(), r))
		}
		return []value{in.opaque("written", types.Typ[types.Int], e.Pos()), nilv{}}, true
	case "WriteByte", "WriteRune":
		v := x.eval(e.Args[0])
		put(in.rs.cat(cur(), in.runeText(v, e.Args[0].Pos())))
		return []value{nilv{}, nilv{}}, true
	case "String", "Bytes":
		return []value{cur()}, true
	case "Len":
		return []value{&num{k: "len(" + cur().key() + ")"}}, true
	case "Reset":
		put(in.rs.empty)
		return nil, true
	}
	for _, a := range e.Args {
		x.eval(a)
	}
	return nil, true
}

func (in *interp) fullPC(x *exec) bdd {
	c := bTrue
	if x != nil {
		c = x.live
	}
	for _, p := range in.pcs {
		c = in.bd.and(c, p)
	}
	return c
}

func (in *interp) emit(x *exec, path value, text value, pos token.Pos) {
	r, ok := text.(*rope)
	if !ok {
		if l, isl := text.(*listv); isl {
			r = in.rs.join(l.segs, in.rs.empty)
		} else {
			return
		}
	}
	var names []string
	for _, f := range in.stack {
		if f != nil {
			names = append(names, f.Name())
		}
	}
	in.sinks = append(in.sinks, sink{path: path, text: r, pc: in.fullPC(x), loops: append([]*rloop{}, in.loops...), pos: pos, stack: names})
}

// external models the library functions that matter for text; others yield a hole.
func (in *interp) external(x *exec, fn *types.Func, recv value, args []value, pos token.Pos) []value {
	sig := fn.Type().(*types.Signature)
	name := fn.FullName()
	arg := func(i int) *rope {
		if i < len(args) {
			if r, ok := args[i].(*rope); ok {
				return r
			}
		}
		return nil
	}
	konst := func(i int) (string, bool) {
		if r := arg(i); r != nil {
			return constText(r)
		}
		return "", false
	}
	if isFileWrite(name) {
		switch name {
		case "os.WriteFile", "io/ioutil.WriteFile":
			if len(args) > 1 {
				in.emit(x, args[0], args[1], pos)
			}
		case "(*os.File).WriteString", "(*os.File).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write":
			if len(args) > 0 {
				in.emit(x, recv, args[0], pos)
			}
		case "io.WriteString":
			if len(args) > 1 {
				in.emit(x, args[0], args[1], pos)
			}
		}
	}
	switch name {
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		if len(args) > 1 {
			var t value
			if name == "fmt.Fprintf" {
				t = in.sprintf(args[1], args[2], pos)
			} else if l, ok := args[1].(*listv); ok {
				t = in.rs.join(in.textSegs(l.segs), in.rs.empty)
			}
			if p, ok := args[0].(ptrv); ok && t != nil {
				if sv, ok := x.st.get(p.k).(*structv); ok {
					cur, _ := sv.over["buf"].(*rope)
					if cur == nil {
						cur = in.rs.empty
					}
					x.st.set(p.k, &structv{typ: sv.typ, over: map[string]value{"buf": in.rs.cat(cur, t.(*rope))}})
					break
				}
			}
			if t != nil && in.isFile(args[0]) {
				in.emit(x, args[0], t, pos)
			}
		}
	case "fmt.Sprintf":
		if len(args) == 2 {
			return []value{in.sprintf(args[0], args[1], pos)}
		}
	case "fmt.Sprint":
		if l, ok := args[0].(*listv); ok {
			return []value{in.rs.join(in.textSegs(l.segs), in.rs.empty)}
		}
	case "strings.ReplaceAll", "strings.Replace":
		if r := arg(0); r != nil {
			a, oka := konst(1)
			b, okb := konst(2)
			if oka && okb {
				if name == "strings.Replace" {
					if n, ok := args[3].(*num); !ok || !n.isc || n.c >= 0 {
						return []value{in.rs.apply(r, op{kind: "replacesome", a: a, b: b})}
					}
				}
				return []value{in.rs.apply(r, op{kind: "replace", a: a, b: b})}
			}
			if by := arg(2); by != nil && name == "strings.ReplaceAll" {
				if oka && a != "" {
					return []value{in.rs.apply(r, op{kind: "replace", a: a, b: by.key(), by: by})}
				}
				if find := arg(1); find != nil && in.blank(find) && in.blank(by) {
					return []value{r} // only the white space of the text changes
				}
			}
			return []value{in.rs.apply(r, op{kind: "replaceany", a: args[1].key(), b: args[2].key()})}
		}
	case "(*strings.Replacer).Replace":
		if r := arg(0); r != nil {
			if s, ok := recv.(*sym); ok && s.name == "strings.NewReplacer" && len(s.args) == 1 {
				if l, ok := s.args[0].(*listv); ok && len(l.segs)%2 == 0 {
					var pairs []string
					good := true
					for _, sg := range l.segs {
						k, isr := sg.v.(*rope)
						if !isr {
							good = false
							break
						}
						t, okc := constText(k)
						if !okc {
							good = false
							break
						}
						pairs = append(pairs, t)
					}
					if good {
						return []value{in.rs.replacer(r, pairs)}
					}
				}
			}
			return []value{in.rs.apply(r, op{kind: "other", a: "replacer"})}
		}
	case "strings.ToUpper":
		if r := arg(0); r != nil {
			return []value{in.rs.apply(r, op{kind: "upper"})}
		}
	case "strings.ToLower":
		if r := arg(0); r != nil {
			return []value{in.rs.apply(r, op{kind: "lower"})}
		}
	case "strings.TrimSpace":
		if r := arg(0); r != nil {
			return []value{in.rs.apply(r, op{kind: "trim"})}
		}
	case "strings.TrimPrefix", "strings.TrimSuffix":
		if r := arg(0); r != nil {
			if c, ok := konst(1); ok {
				return []value{in.rs.apply(r, op{kind: strings.ToLower(name[8:]), a: c})}
			}
		}
	case "strings.Repeat":
		if r := arg(0); r != nil {
			if n, ok := args[1].(*num); ok && n.isc && n.c < 64 {
				out := in.rs.empty
				for i := int64(0); i < n.c; i++ {
					out = in.rs.cat(out, r)
				}
				return []value{out}
			}
			l := in.loopOver(in.sym(sym{k: "repeat(" + args[1].key() + ")", kind: "opaque"}), pos)
			return []value{in.rs.star(l, r)}
		}
	case "strings.Join":
		if r := arg(1); r != nil {
			if isListValue(args[0]) {
				return []value{in.rs.join(in.segsOf(args[0], pos), r)}
			}
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		if r, s := arg(0), arg(1); r != nil && s != nil {
			return []value{bval{in.textTest(name[8:], r, s)}}
		}
	case "strings.ContainsAny", "strings.ContainsRune":
		if r := arg(0); r != nil {
			set, ok := "", false
			if name == "strings.ContainsAny" {
				set, ok = konst(1)
			} else if n, isn := args[1].(*num); isn && n.isc {
				set, ok = string(rune(n.c)), true
			}
			if ok {
				c := bFalse
				for _, ch := range set {
					c = in.bd.or(c, in.textTest("Contains", r, in.rs.konst(string(ch), pos)))
				}
				return []value{bval{c}}
			}
		}
	case "strings.EqualFold":
		if r, s := arg(0), arg(1); r != nil && s != nil {
			return []value{bval{in.eqRope(in.rs.apply(r, op{kind: "lower"}), in.rs.apply(s, op{kind: "lower"}), 0)}}
		}
	case "strings.Index", "strings.LastIndex":
		a, oka := konst(0)
		b, okb := konst(1)
		if oka && okb {
			if name == "strings.Index" {
				return []value{in.num(int64(strings.Index(a, b)))}
			}
			return []value{in.num(int64(strings.LastIndex(a, b)))}
		}
	case "strings.Split":
		a, oka := konst(0)
		b, okb := konst(1)
		if oka && okb {
			l := &listv{typ: sig.Results().At(0).Type()}
			for _, s := range strings.Split(a, b) {
				l.segs = append(l.segs, seg{v: in.rs.konst(s, arg(0).pos)})
			}
			return []value{l}
		}
	case "strconv.Itoa", "strconv.FormatInt":
		if n, ok := args[0].(*num); ok {
			if n.isc {
				return []value{in.rs.konst(strconv.FormatInt(n.c, 10), pos)}
			}
			return []value{in.intText(n)}
		}
	case "strconv.Quote":
		if r := arg(0); r != nil {
			q := in.rs.konst("\"", pos)
			return []value{in.rs.cat(q, in.rs.apply(r, op{kind: "quote"}), q)}
		}
	case "html.EscapeString", "html/template.HTMLEscapeString":
		if r := arg(0); r != nil {
			return []value{in.rs.replacer(r, []string{"&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&#34;", "'", "&#39;"})}
		}
	case "sort.Strings", "sort.Slice", "sort.SliceStable", "sort.Ints", "slices.Sort", "slices.SortFunc", "slices.Reverse":
		return nil
	case "os.Exit", "log.Fatal", "log.Fatalf":
		if x != nil {
			x.live = bFalse
		}
		return nil
	case "maps.Keys", "maps.Values", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
		if m, ok := args[0].(*sym); ok && m.typ != nil {
			if t, ok := m.typ.Underlying().(*types.Map); ok {
				l := in.loopOver(m, pos)
				if strings.HasSuffix(name, "Keys") {
					return []value{&listv{segs: []seg{{loop: l, a: []seg{{v: in.keyOf(m, l, t.Key())}}}}, typ: types.NewSlice(t.Key())}}
				}
				return []value{&listv{segs: []seg{{loop: l, a: []seg{{v: in.elemOf(m, l)}}}}, typ: types.NewSlice(t.Elem())}}
			}
		}
	case "slices.Collect", "slices.Sorted", "slices.SortedFunc", "slices.Clone", "slices.Values":
		if isListValue(args[0]) {
			return []value{args[0]}
		}
	case "slices.Contains":
		return []value{bval{in.contains(args[0], args[1], pos)}}
	}
	all := args
	if recv != nil {
		all = append([]value{recv}, args...)
	}
	return in.results(fn, sig, all, "call", pos)
}

func (in *interp) isFile(v value) bool {
	if s, ok := v.(*sym); ok && s.typ != nil {
		switch s.typ.String() {
		case "*os.File", "*bufio.Writer":
			return true
		}
	}
	return false
}

func (in *interp) contains(l, v value, pos token.Pos) bdd {
	c := bFalse
	var walk func(segs []seg, g bdd)
	walk = func(segs []seg, g bdd) {
		for _, s := range segs {
			switch {
			case s.ifelse:
				walk(s.a, in.bd.and(g, s.c))
				walk(s.b, in.bd.and(g, in.bd.not(s.c)))
			case s.loop != nil || s.tok > 0:
				k := "in(" + segsKey([]seg{s}) + "," + v.key() + ")"
				c = in.bd.or(c, in.bd.and(g, in.bd.atom(k, "", k)))
			default:
				c = in.bd.or(c, in.bd.and(g, in.eq(s.v, v)))
			}
		}
	}
	walk(in.segsOf(l, pos), bTrue)
	return c
}

func (in *interp) intText(n *num) *rope {
	if n.isc {
		return in.rs.konst(strconv.FormatInt(n.c, 10), 0)
	}
	if n.alt != nil {
		return in.rs.ifelse(n.alt.c, in.intText(n.alt.a), in.intText(n.alt.b))
	}
	return in.rs.hole(in.sym(sym{k: "itoa(" + n.k + ")", kind: "itoa", name: n.k, typ: types.Typ[types.String], args: []value{n}}), nil)
}

func (in *interp) textTest(kind string, r, s *rope) bdd {
	k := fmt.Sprintf("%s %d %d", kind, r.id, s.id)
	if c, ok := in.testM[k]; ok {
		return c
	}
	c := in.bd.cap(in.textTest1(kind, r, s), capSize)
	in.testM[k] = c
	return c
}

func (in *interp) textTest1(kind string, r, s *rope) bdd {
	if r.kind == rIf {
		return in.bd.ite(r.c, in.textTest(kind, r.a, s), in.textTest(kind, r.b, s))
	}
	if r.kind == rCat {
		l := append([]*rope{}, r.parts...)
		i := -1
		if kind == "HasPrefix" && l[0].kind == rIf {
			i = 0
		}
		if kind == "HasSuffix" && l[len(l)-1].kind == rIf {
			i = len(l) - 1
		}
		if i >= 0 {
			p := l[i]
			with := func(t *rope) *rope {
				m := append([]*rope{}, l...)
				m[i] = t
				return in.rs.cat(m...)
			}
			return in.bd.ite(p.c, in.textTest(kind, with(p.a), s), in.textTest(kind, with(p.b), s))
		}
	}
	a, oka := constText(r)
	b, okb := constText(s)
	if oka && okb {
		res := false
		switch kind {
		case "HasPrefix":
			res = strings.HasPrefix(a, b)
		case "HasSuffix":
			res = strings.HasSuffix(a, b)
		case "Contains":
			res = strings.Contains(a, b)
		}
		if res {
			return bTrue
		}
		return bFalse
	}
	if okb && r.kind == rCat {
		first, last := r.parts[0], r.parts[len(r.parts)-1]
		if kind == "HasPrefix" && first.kind == rConst && len(first.s) >= len(b) {
			if strings.HasPrefix(first.s, b) {
				return bTrue
			}
			return bFalse
		}
		if kind == "HasSuffix" && last.kind == rConst && len(last.s) >= len(b) {
			if strings.HasSuffix(last.s, b) {
				return bTrue
			}
			return bFalse
		}
		if kind == "Contains" {
			for _, p := range r.parts {
				if p.kind == rConst && strings.Contains(p.s, b) {
					return bTrue
				}
			}
			// it is in one of the parts, or where they meet
			if len(r.parts) <= 16 {
				c := bFalse
				if len(b) > 1 {
					c = in.bd.atom(kind+"("+r.key()+","+strconv.Quote(b)+")", "", kind+"("+r.key()+", "+strconv.Quote(b)+")")
				}
				for _, p := range r.parts {
					if p.kind != rConst {
						c = in.bd.or(c, in.textTest(kind, p, s))
					}
				}
				return c
			}
		}
	}
	t := s.key()
	if okb {
		t = strconv.Quote(b)
	}
	u := r.key()
	if r.kind == rHole {
		u = in.symText(r.sym) + opsKey(r.ops)
	}
	k := kind + "(" + r.key() + "," + t + ")"
	group := ""
	if okb && len(b) == 1 && kind != "Contains" {
		// a text starts and ends with one character only
		group = kind + "(" + r.key() + ")"
	}
	c := in.bd.atom(k, group, kind+"("+u+", "+t+")")
	if okb && r.kind == rHole {
		in.textTests[r.id] = append(in.textTests[r.id], textTestAt{kind: kind, s: b, c: c})
	}
	return c
}

func (in *interp) textSegs(segs []seg) []seg {
	out := make([]seg, len(segs))
	for i, s := range segs {
		out[i] = s
		if s.v != nil {
			out[i] = seg{v: in.text(s.v)}
		}
		if s.loop != nil {
			out[i] = seg{loop: s.loop, a: in.textSegs(s.a)}
		}
		if s.ifelse {
			out[i] = seg{ifelse: true, c: s.c, a: in.textSegs(s.a), b: in.textSegs(s.b)}
		}
	}
	return out
}

func (in *interp) text(v value) *rope {
	switch v := v.(type) {
	case *rope:
		return v
	case *num:
		if v.isc {
			return in.rs.konst(v.k, 0)
		}
		return in.intText(v)
	case bval:
		return in.rs.ifelse(v.b, in.rs.konst("true", 0), in.rs.konst("false", 0))
	case *itev:
		return in.rs.ifelse(v.c, in.text(v.a), in.text(v.b))
	}
	return in.opaque("text", types.Typ[types.String], 0, v).(*rope)
}

// blank says that a text consists of white space.
func (in *interp) blank(r *rope) bool {
	switch r.kind {
	case rConst:
		return strings.TrimSpace(r.s) == ""
	case rCat:
		for _, p := range r.parts {
			if !in.blank(p) {
				return false
			}
		}
		return true
	case rIf:
		return in.blank(r.a) && in.blank(r.b)
	case rStar:
		return in.blank(r.body)
	case rHole:
		return strings.HasPrefix(r.sym.name, "strings.Repeat")
	}
	return false
}

func (in *interp) sprintf(f, a value, pos token.Pos) *rope {
	fr, ok := f.(*rope)
	l, isl := a.(*listv)
	if ok && isl {
		if s, okc := constText(fr); okc {
			out := in.rs.empty
			n := 0
			for len(s) > 0 {
				i := strings.IndexByte(s, '%')
				if i < 0 || i+1 >= len(s) {
					out = in.rs.cat(out, in.rs.konst(s, fr.pos))
					break
				}
				if i > 0 {
					out = in.rs.cat(out, in.rs.konst(s[:i], fr.pos))
				}
				c := s[i+1]
				s = s[i+2:]
				if c == '%' {
					out = in.rs.cat(out, in.rs.konst("%", fr.pos))
					continue
				}
				if n >= len(l.segs) || l.segs[n].v == nil {
					return in.opaque("sprintf", types.Typ[types.String], pos, f, a).(*rope)
				}
				t := in.text(l.segs[n].v)
				n++
				switch c {
				case 's', 'v', 'd':
					out = in.rs.cat(out, t)
				case 'q':
					q := in.rs.konst("\"", fr.pos)
					out = in.rs.cat(out, q, in.rs.apply(t, op{kind: "quote"}), q)
				default:
					return in.opaque("sprintf", types.Typ[types.String], pos, f, a).(*rope)
				}
			}
			return out
		}
	}
	return in.opaque("sprintf", types.Typ[types.String], pos, f, a).(*rope)
}

// replacer applies simultaneous replacements. They are recorded as successive ones in an order in
// which no replacement touches the text another one put in.
func (rs *ropes) replacer(r *rope, pairs []string) *rope {
	n := len(pairs) / 2
	for i := 0; i < n; i++ {
		if len(pairs[2*i]) != 1 {
			return rs.apply(r, op{kind: "replacer", a: strings.Join(pairs, "\x01")})
		}
	}
	used := make([]bool, n)
	for done := 0; done < n; {
		progress := false
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			clash := false
			for j := 0; j < n; j++ {
				if used[j] && strings.Contains(pairs[2*j+1], pairs[2*i]) {
					clash = true
				}
			}
			if !clash {
				r = rs.apply(r, op{kind: "replace", a: pairs[2*i], b: pairs[2*i+1]})
				used[i] = true
				done++
				progress = true
			}
		}
		if !progress {
			return rs.apply(r, op{kind: "replacer", a: strings.Join(pairs, "\x01")})
		}
	}
	return r
}
