package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// The evaluator represents a string the program builds as a rope: constants of the source,
// holes filled with values of the compiled project, and concatenations, choices and repetitions
// of these. Ropes are hash-consed, so equal ropes are the same pointer.

type ropeKind int

const (
	rConst ropeKind = iota
	rHole
	rCat
	rIf
	rStar
	rJoin
	rTok
)

type op struct {
	kind string // replace, upper, lower, ucfirst, trim, slice, quote, other
	a, b string
	by   *rope // replacement that is not a constant
}

type rope struct {
	id    int
	kind  ropeKind
	s     string // rConst
	pos   token.Pos
	sym   *sym // rHole
	tok   int  // rTok
	ops   []op // rHole, rTok
	parts []*rope
	c     bdd
	a, b  *rope
	loop  *rloop
	body  *rope
	segs  []seg
	sep   *rope
}

// loop is an iteration over all elements of a collection. Iterations over the same collection
// are the same loop.
type rloop struct {
	key   string
	coll  value
	early bdd // condition (about one element) under which the rest is left out
	pos   token.Pos
	back  bool   // runs from the last element to the first
	whole string // key of the same loop without leaving early
	text  *rope  // the text whose characters it runs over
}

// seg is a part of a list: one value, the parts for every element of a loop, or a choice.
type seg struct {
	v      value
	loop   *rloop
	c      bdd
	a, b   []seg
	ifelse bool
	tok    int // placeholder of the list before this iteration, when > 0
}

type ropes struct {
	bd    *bdds
	all   []*rope
	index map[string]*rope
	empty *rope
	opm   map[string]*rope
	toks  map[int]map[int]int
}

func newRopes(bd *bdds) *ropes {
	rs := &ropes{bd: bd, index: map[string]*rope{}, opm: map[string]*rope{}, toks: map[int]map[int]int{}}
	rs.empty = rs.konst("", 0)
	return rs
}

func (rs *ropes) mk(key string, n rope) *rope {
	if r, ok := rs.index[key]; ok {
		return r
	}
	n.id = len(rs.all)
	r := &n
	rs.all = append(rs.all, r)
	rs.index[key] = r
	return r
}

func (r *rope) key() string { return "R" + strconv.Itoa(r.id) }

func (rs *ropes) konst(s string, pos token.Pos) *rope {
	if s == "" {
		pos = 0
	}
	return rs.mk("k"+strconv.Itoa(int(pos))+":"+s, rope{kind: rConst, s: s, pos: pos})
}

func opsKey(ops []op) string {
	var b strings.Builder
	for _, o := range ops {
		fmt.Fprintf(&b, "|%s,%q,%q", o.kind, o.a, o.b)
	}
	return b.String()
}

func (rs *ropes) hole(s *sym, ops []op) *rope {
	return rs.mk("h"+s.k+opsKey(ops), rope{kind: rHole, sym: s, ops: ops})
}

func (rs *ropes) token(id int, ops []op) *rope {
	return rs.mk("t"+strconv.Itoa(id)+opsKey(ops), rope{kind: rTok, tok: id, ops: ops})
}

func (rs *ropes) parts(r *rope) []*rope {
	if r.kind == rCat {
		return r.parts
	}
	if r == rs.empty {
		return nil
	}
	return []*rope{r}
}

func (rs *ropes) cat(l ...*rope) *rope {
	var parts []*rope
	for _, r := range l {
		parts = append(parts, rs.parts(r)...)
	}
	switch len(parts) {
	case 0:
		return rs.empty
	case 1:
		return parts[0]
	}
	var b strings.Builder
	b.WriteString("c")
	for _, p := range parts {
		b.WriteString(strconv.Itoa(p.id))
		b.WriteByte(',')
	}
	return rs.mk(b.String(), rope{kind: rCat, parts: parts})
}

// ifelse builds the choice between two ropes, keeping common beginnings and ends outside.
func (rs *ropes) ifelse(c bdd, a, b *rope) *rope {
	switch {
	case c == bTrue || a == b:
		return a
	case c == bFalse:
		return b
	}
	pa, pb := rs.parts(a), rs.parts(b)
	i := 0
	for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
		i++
	}
	j := 0
	for j < len(pa)-i && j < len(pb)-i && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
		j++
	}
	if i > 0 || j > 0 {
		mid := rs.ifelse(c, rs.cat(pa[i:len(pa)-j]...), rs.cat(pb[i:len(pb)-j]...))
		out := append([]*rope{}, pa[:i]...)
		out = append(out, mid)
		out = append(out, pa[len(pa)-j:]...)
		return rs.cat(out...)
	}
	// a nested choice on the same condition
	if a.kind == rIf && a.c == c {
		return rs.ifelse(c, a.a, b)
	}
	if b.kind == rIf && b.c == c {
		return rs.ifelse(c, a, b.b)
	}
	if b.kind == rIf && b.a == a {
		return rs.ifelse(rs.bd.or(c, b.c), a, b.b)
	}
	if b.kind == rIf && b.b == a {
		return rs.ifelse(rs.bd.or(c, rs.bd.not(b.c)), a, b.a)
	}
	if a.kind == rIf && a.a == b {
		return rs.ifelse(rs.bd.and(c, rs.bd.not(a.c)), a.b, b)
	}
	if a.kind == rIf && a.b == b {
		return rs.ifelse(rs.bd.and(c, a.c), a.a, b)
	}
	return rs.mk(fmt.Sprintf("i%d,%d,%d", c, a.id, b.id), rope{kind: rIf, c: c, a: a, b: b})
}

func (rs *ropes) star(l *rloop, body *rope) *rope {
	if body == rs.empty {
		return body
	}
	if l.text != nil && l.early == bFalse {
		if o, ok := rs.charMap(l, body); ok {
			if o.kind == "" {
				return l.text
			}
			return rs.apply(l.text, o)
		}
	}
	return rs.mk(fmt.Sprintf("s%s,%d", l.key, body.id), rope{kind: rStar, loop: l, body: body})
}

// charMap recognises a text written for every character of another text that depends on nothing
// but the character, as the replacement of characters.
func (rs *ropes) charMap(l *rloop, body *rope) (op, bool) {
	v, ok := rs.bd.varOf["char("+l.key+")"]
	if !ok {
		return op{}, body.kind == rHole && body.sym.kind == "char" && len(body.ops) == 0
	}
	// text for one character, nil where it depends on more
	var with func(r *rope, c int, ch string) (string, bool)
	with = func(r *rope, c int, ch string) (string, bool) {
		switch r.kind {
		case rConst:
			return r.s, true
		case rHole:
			return ch, r.sym.kind == "char" && r.sym.k == "char("+l.key+")" && len(r.ops) == 0
		case rCat:
			s := ""
			for _, p := range r.parts {
				t, ok := with(p, c, ch)
				if !ok {
					return "", false
				}
				s += t
			}
			return s, true
		case rIf:
			switch rs.bd.restrict(r.c, v, c) {
			case bTrue:
				return with(r.a, c, ch)
			case bFalse:
				return with(r.b, c, ch)
			}
		}
		return "", false
	}
	other, ok := with(body, -1, "\x02")
	if !ok || other != "\x02" {
		return op{}, false
	}
	var pairs []string
	for k, c := range rs.bd.cOf {
		p := strings.SplitN(k, "\x00", 2)
		if p[0] != rs.bd.vars[v] {
			continue
		}
		n, err := strconv.Atoi(p[1][strings.LastIndex(p[1], "==")+2:])
		if err != nil {
			return op{}, false
		}
		ch := string(rune(n))
		t, ok := with(body, c, ch)
		if !ok {
			return op{}, false
		}
		if t != ch {
			pairs = append(pairs, ch+"\x01"+t)
		}
	}
	if len(pairs) == 0 {
		return op{}, true
	}
	sort.Strings(pairs)
	return op{kind: "replacer", a: strings.Join(pairs, "\x01")}, true
}

func (rs *ropes) join(segs []seg, sep *rope) *rope {
	if len(segs) == 0 {
		return rs.empty
	}
	plain := true
	for _, s := range segs {
		if s.loop != nil || s.ifelse || s.tok > 0 {
			plain = false
		}
	}
	if plain {
		var l []*rope
		for i, s := range segs {
			if i > 0 {
				l = append(l, sep)
			}
			if r, ok := s.v.(*rope); ok {
				l = append(l, r)
			}
		}
		return rs.cat(l...)
	}
	if t := rs.rejoined(segs, sep); t != nil {
		return t
	}
	return rs.mk("j"+segsKey(segs)+":"+strconv.Itoa(sep.id), rope{kind: rJoin, segs: segs, sep: sep})
}

// rejoined recognises a text that was split into lines and put together again, with lines left
// out or written with something before or after.
func (rs *ropes) rejoined(segs []seg, sep *rope) *rope {
	if len(segs) != 1 || segs[0].loop == nil {
		return nil
	}
	l := segs[0].loop
	s, ok := l.coll.(*sym)
	if !ok || s.kind != "call" || s.name != "strings.Split" || len(s.args) != 2 {
		return nil
	}
	text, ok1 := s.args[0].(*rope)
	by, ok2 := s.args[1].(*rope)
	if !ok1 || !ok2 {
		return nil
	}
	a, oka := constText(by)
	b, okb := constText(sep)
	if !oka || !okb || a != b {
		return nil
	}
	var extra []*rope
	good, found := true, false
	var walk func(segs []seg)
	walk = func(segs []seg) {
		for _, sg := range segs {
			switch {
			case sg.tok > 0 || sg.loop != nil:
				good = false
			case sg.ifelse:
				walk(sg.a)
				walk(sg.b)
			default:
				r, ok := sg.v.(*rope)
				if !ok {
					good = false
					return
				}
				for _, p := range rs.parts(r) {
					switch {
					case p.kind == rHole && p.sym.kind == "elem" && p.sym.k == l.key+"[*]":
						found = true
					case p.kind == rConst:
						extra = append(extra, p)
					default:
						good = false
					}
				}
			}
		}
	}
	walk(segs[0].a)
	if !good || !found {
		return nil
	}
	if len(extra) == 0 {
		return text
	}
	return rs.cat(text, rs.star(l, rs.cat(extra...)))
}

func segsKey(segs []seg) string {
	var b strings.Builder
	for _, s := range segs {
		switch {
		case s.tok > 0:
			fmt.Fprintf(&b, "T%d;", s.tok)
		case s.ifelse:
			fmt.Fprintf(&b, "I%d{%s}{%s};", s.c, segsKey(s.a), segsKey(s.b))
		case s.loop != nil:
			fmt.Fprintf(&b, "S%s{%s};", s.loop.key, segsKey(s.a))
		default:
			b.WriteString(s.v.key())
			b.WriteByte(';')
		}
	}
	return b.String()
}

func constOp(s string, o op) (string, bool) {
	switch o.kind {
	case "replace":
		return strings.ReplaceAll(s, o.a, o.b), true
	case "upper":
		return strings.ToUpper(s), true
	case "lower":
		return strings.ToLower(s), true
	case "trim":
		return strings.TrimSpace(s), true
	case "trimprefix":
		return strings.TrimPrefix(s, o.a), true
	case "trimsuffix":
		return strings.TrimSuffix(s, o.a), true
	case "replacer":
		return strings.NewReplacer(strings.Split(o.a, "\x01")...).Replace(s), true
	case "quote":
		q := strconv.Quote(s)
		return q[1 : len(q)-1], true
	}
	return "", false
}

// apply returns the rope after an operation on the text.
func (rs *ropes) apply(r *rope, o op) *rope {
	if o.kind == "replace" && o.by == nil && o.a == o.b {
		return r
	}
	k := strconv.Itoa(r.id) + opsKey([]op{o})
	if v, ok := rs.opm[k]; ok {
		return v
	}
	v := rs.apply1(r, o)
	rs.opm[k] = v
	return v
}

func (rs *ropes) apply1(r *rope, o op) *rope {
	if o.by != nil && r.kind == rConst {
		l := []*rope{}
		for i, p := range strings.Split(r.s, o.a) {
			if i > 0 {
				l = append(l, o.by)
			}
			if p != "" {
				l = append(l, rs.konst(p, r.pos))
			}
		}
		return rs.cat(l...)
	}
	if r.kind == rConst {
		if s, ok := constOp(r.s, o); ok {
			if s == r.s {
				return r
			}
			return rs.konst(s, r.pos)
		}
	}
	switch r.kind {
	case rHole:
		return rs.hole(r.sym, append(append([]op{}, r.ops...), o))
	case rTok:
		return rs.token(r.tok, append(append([]op{}, r.ops...), o))
	case rIf:
		return rs.ifelse(r.c, rs.apply(r.a, o), rs.apply(r.b, o))
	}
	switch o.kind {
	case "replace", "replacer", "upper", "lower", "quote":
		switch r.kind {
		case rCat:
			l := make([]*rope, len(r.parts))
			for i, p := range r.parts {
				l[i] = rs.apply(p, o)
			}
			return rs.cat(l...)
		case rStar:
			return rs.star(r.loop, rs.apply(r.body, o))
		case rJoin:
			return rs.join(rs.applySegs(r.segs, o), rs.apply(r.sep, o))
		}
	}
	s := &sym{k: o.kind + opsKey([]op{o}) + "(" + r.key() + ")", kind: "text", typ: types.Typ[types.String], args: []value{r}}
	return rs.hole(s, nil)
}

func (rs *ropes) applySegs(segs []seg, o op) []seg {
	out := make([]seg, len(segs))
	for i, s := range segs {
		switch {
		case s.tok > 0:
			out[i] = s
		case s.ifelse:
			out[i] = seg{ifelse: true, c: s.c, a: rs.applySegs(s.a, o), b: rs.applySegs(s.b, o)}
		case s.loop != nil:
			out[i] = seg{loop: s.loop, a: rs.applySegs(s.a, o)}
		default:
			if r, ok := s.v.(*rope); ok {
				out[i] = seg{v: rs.apply(r, o)}
			} else {
				out[i] = s
			}
		}
	}
	return out
}

// tokens returns how often each placeholder occurs in the rope.
func (rs *ropes) tokens(r *rope) map[int]int {
	if m, ok := rs.toks[r.id]; ok {
		return m
	}
	m := map[int]int{}
	add := func(o map[int]int) {
		for k, v := range o {
			m[k] += v
		}
	}
	switch r.kind {
	case rTok:
		m[r.tok]++
	case rCat:
		for _, p := range r.parts {
			add(rs.tokens(p))
		}
	case rIf:
		add(rs.tokens(r.a))
		add(rs.tokens(r.b))
	case rStar:
		add(rs.tokens(r.body))
	case rJoin:
		add(rs.segTokens(r.segs))
		add(rs.tokens(r.sep))
	case rHole:
		for _, a := range r.sym.args {
			add(rs.valueTokens(a))
		}
	}
	rs.toks[r.id] = m
	return m
}

func (rs *ropes) valueTokens(v value) map[int]int {
	switch v := v.(type) {
	case *rope:
		return rs.tokens(v)
	case *listv:
		return rs.segTokens(v.segs)
	case *sym:
		m := map[int]int{}
		if v.tok > 0 {
			m[v.tok]++
		}
		return m
	}
	return nil
}

func (rs *ropes) segTokens(segs []seg) map[int]int {
	m := map[int]int{}
	for _, s := range segs {
		var subs []map[int]int
		switch {
		case s.tok > 0:
			m[s.tok]++
		case s.ifelse:
			subs = append(subs, rs.segTokens(s.a), rs.segTokens(s.b))
		case s.loop != nil:
			subs = append(subs, rs.segTokens(s.a))
		default:
			subs = append(subs, rs.valueTokens(s.v))
		}
		for _, o := range subs {
			for k, v := range o {
				m[k] += v
			}
		}
	}
	return m
}

// subst replaces a placeholder by a rope.
func (rs *ropes) subst(r *rope, tok int, by *rope) *rope {
	if rs.tokens(r)[tok] == 0 {
		return r
	}
	switch r.kind {
	case rTok:
		for _, o := range r.ops {
			by = rs.apply(by, o)
		}
		return by
	case rCat:
		l := make([]*rope, len(r.parts))
		for i, p := range r.parts {
			l[i] = rs.subst(p, tok, by)
		}
		return rs.cat(l...)
	case rIf:
		return rs.ifelse(r.c, rs.subst(r.a, tok, by), rs.subst(r.b, tok, by))
	case rStar:
		return rs.star(r.loop, rs.subst(r.body, tok, by))
	case rJoin:
		return rs.join(rs.substSegs(r.segs, tok, by), rs.subst(r.sep, tok, by))
	}
	return r
}

func (rs *ropes) substSegs(segs []seg, tok int, by *rope) []seg {
	out := make([]seg, len(segs))
	for i, s := range segs {
		switch {
		case s.tok > 0:
			out[i] = s
		case s.ifelse:
			out[i] = seg{ifelse: true, c: s.c, a: rs.substSegs(s.a, tok, by), b: rs.substSegs(s.b, tok, by)}
		case s.loop != nil:
			out[i] = seg{loop: s.loop, a: rs.substSegs(s.a, tok, by)}
		default:
			if r, ok := s.v.(*rope); ok {
				out[i] = seg{v: rs.subst(r, tok, by)}
			} else {
				out[i] = s
			}
		}
	}
	return out
}

// show renders a rope for debugging.
func (rs *ropes) show(r *rope, depth int) string {
	if depth < 0 {
		return "…"
	}
	switch r.kind {
	case rConst:
		return strconv.Quote(r.s)
	case rHole:
		s := "<" + r.sym.k
		for _, o := range r.ops {
			s += "." + o.kind + "(" + o.a + "→" + o.b + ")"
		}
		return s + ">"
	case rTok:
		return fmt.Sprintf("<tok%d>", r.tok)
	case rCat:
		var l []string
		for _, p := range r.parts {
			l = append(l, rs.show(p, depth-1))
		}
		return strings.Join(l, " + ")
	case rIf:
		return "if(" + rs.bd.show(r.c) + "){" + rs.show(r.a, depth-1) + "}{" + rs.show(r.b, depth-1) + "}"
	case rStar:
		return "each(" + r.loop.key + "){" + rs.show(r.body, depth-1) + "}"
	case rJoin:
		return "join(" + rs.showSegs(r.segs, depth-1) + "; " + rs.show(r.sep, depth-1) + ")"
	}
	return "?"
}

func (rs *ropes) showSegs(segs []seg, depth int) string {
	var l []string
	for _, s := range segs {
		switch {
		case s.tok > 0:
			l = append(l, fmt.Sprintf("<tok%d>", s.tok))
		case s.ifelse:
			l = append(l, "if("+rs.bd.show(s.c)+"){"+rs.showSegs(s.a, depth)+"}{"+rs.showSegs(s.b, depth)+"}")
		case s.loop != nil:
			l = append(l, "each("+s.loop.key+"){"+rs.showSegs(s.a, depth)+"}")
		default:
			if r, ok := s.v.(*rope); ok {
				l = append(l, rs.show(r, depth))
			} else {
				l = append(l, s.v.key())
			}
		}
	}
	return strings.Join(l, ", ")
}
