package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// The lexer runs over a rope instead of a text. For every part of a rope and every state the
// lexer can be in, it works out the states it can end in and the brackets left open or closed,
// each with the condition under which this happens.

type lexSym struct {
	ch   string
	pos  token.Pos
	loop string // a bracket per element of this loop
	part string // condition on the element
}

func (s lexSym) key() string {
	if s.loop != "" {
		return "each(" + s.loop + "," + s.part + "," + s.ch + ")"
	}
	return s.ch
}

type lexEff struct {
	mode   string
	pops   []lexSym // brackets closed that were opened before
	pushes []lexSym // brackets left open
	err    string
	epos   []token.Pos
}

func (e lexEff) key() string {
	if e.err != "" {
		return "E" + e.err + fmt.Sprint(e.epos)
	}
	var b strings.Builder
	b.WriteString(e.mode)
	b.WriteByte('|')
	for _, s := range e.pops {
		b.WriteString(s.key() + " ")
	}
	b.WriteByte('|')
	for _, s := range e.pushes {
		b.WriteString(s.key() + " ")
	}
	return b.String()
}

type lexCase struct {
	c bdd
	e lexEff
}

// holeAt is where a hole is: the constant texts next to it.
type holeAt struct {
	before, after *rope
}

func (h holeAt) pos() token.Pos {
	if h.before != nil && h.before.pos != 0 {
		return h.before.pos
	}
	if h.after != nil {
		return h.after.pos
	}
	return 0
}

type lexer struct {
	in    *interp
	lang  string
	memo  map[string][]lexCase
	limit int
	// onHole is told about every hole the lexer passes and its state there
	onHole func(r *rope, mode string, at holeAt)
	// onText gives the cases for a text that is not made by the compiler, nil for others
	onText func(r *rope, mode string, at holeAt) []lexCase
	// onMark follows a text from a state that was marked by onText, nil to follow it as usual
	onMark func(r *rope, mode string) []lexCase
	at     holeAt
	strict bool // report texts that do not stay where they are
	flat   bool // leave out brackets, and go on after a line end in a literal
	seen   map[string]bool
	large  int
	cuts   map[int]bool // texts that were followed although cut
	debug  bool
}

func newLexer(in *interp, lang string) *lexer {
	return &lexer{in: in, lang: lang, memo: map[string][]lexCase{}, limit: 48, seen: map[string]bool{}, cuts: map[int]bool{}}
}

var closerOf = map[string]string{"(": ")", "[": "]", "{": "}"}

// flush ends what can only be decided by the next character of the same token.
func flush(mode string) string {
	switch mode {
	case "code/", `code""`:
		return "code"
	case `code"`:
		return "dq"
	case "block*":
		return "block"
	case `tdq"`, `tdq""`:
		return "tdq"
	}
	if m, _, ok := strings.Cut(mode, markMode); ok {
		return m
	}
	return mode
}

// a state with what went before
const markMode = " after "

func (lx *lexer) triple() bool {
	switch lx.lang {
	case "kotlin", "swift", "java", "csharp":
		return true
	}
	return false
}

func (lx *lexer) step(mode string, ch byte, pos token.Pos, e *lexEff) string {
	switch mode {
	case `code"`:
		if ch == '"' {
			if lx.triple() {
				return `code""`
			}
			return "code"
		}
		mode = "dq"
	case `code""`:
		if ch == '"' {
			return "tdq"
		}
		mode = "code"
	case "code/":
		switch ch {
		case '/':
			return "line"
		case '*':
			return "block"
		}
		mode = "code"
	case "block*":
		switch ch {
		case '/':
			return "code"
		case '*':
			return mode
		}
		return "block"
	case `tdq"`:
		if ch == '"' {
			return `tdq""`
		}
		return "tdq"
	case `tdq""`:
		if ch == '"' {
			return "code"
		}
		return "tdq"
	case `dq\!`:
		if ch != '\\' {
			e.fail(textEscapes, pos)
		}
		return "dq"
	case `dq\`:
		return "dq"
	case `sq\`:
		return "sq"
	case `bt\`:
		return "bt"
	}
	switch mode {
	case "code":
		switch ch {
		case '"':
			return `code"`
		case '\'':
			return "sq"
		case '`':
			if lx.lang == "js" {
				return "bt"
			}
		case '/':
			return "code/"
		case '(', '[', '{':
			if lx.flat {
				break
			}
			e.pushes = append(e.pushes, lexSym{ch: string(ch), pos: pos})
		case ')', ']', '}':
			if lx.flat {
				break
			}
			lx.pop(e, lexSym{ch: string(ch), pos: pos})
		}
	case "line":
		if ch == '\n' {
			return "code"
		}
	case "block":
		if ch == '*' {
			return "block*"
		}
	case "dq":
		switch ch {
		case '\\':
			return `dq\`
		case '"':
			return "code"
		case '\n':
			if lx.flat {
				return "code"
			}
			e.fail("a line ends inside a string literal", pos)
		}
	case "sq":
		switch ch {
		case '\\':
			return `sq\`
		case '\'':
			return "code"
		case '\n':
			if lx.flat {
				return "code"
			}
			e.fail("a line ends inside a character literal", pos)
		}
	case "bt":
		switch ch {
		case '\\':
			return `bt\`
		case '`':
			return "code"
		}
	case "tdq":
		if ch == '"' {
			return `tdq"`
		}
	}
	return mode
}

func (e *lexEff) fail(msg string, pos ...token.Pos) {
	if e.err == "" {
		e.err = msg
		e.epos = pos
	}
}

func (lx *lexer) pop(e *lexEff, s lexSym) {
	if n := len(e.pushes); n > 0 {
		o := e.pushes[n-1]
		want := closerOf[o.ch]
		if o.loop != "" {
			want = mirror(o.ch)
		}
		if want == s.ch && o.loop == s.loop && o.part == s.part {
			e.pushes = e.pushes[:n-1]
			return
		}
		e.fail(fmt.Sprintf("%s is closed by %s", o.show(), s.show()), o.pos, s.pos)
		return
	}
	e.pops = append(e.pops, s)
}

func (s lexSym) show() string {
	if s.loop != "" {
		return "'" + s.ch + "' for each of " + short(s.loop, 80)
	}
	return "'" + s.ch + "'"
}

func mirror(s string) string {
	var b strings.Builder
	for i := len(s) - 1; i >= 0; i-- {
		switch s[i] {
		case '(':
			b.WriteByte(')')
		case '[':
			b.WriteByte(']')
		case '{':
			b.WriteByte('}')
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func (lx *lexer) then(a, b lexEff) lexEff {
	if a.err != "" {
		return a
	}
	if b.err != "" {
		return b
	}
	out := lexEff{mode: b.mode, pops: append([]lexSym{}, a.pops...), pushes: append([]lexSym{}, a.pushes...)}
	for _, p := range b.pops {
		lx.pop(&out, p)
		if out.err != "" {
			return lexEff{err: out.err, epos: out.epos}
		}
	}
	out.pushes = append(out.pushes, b.pushes...)
	return out
}

func (lx *lexer) merge(cs []lexCase) []lexCase {
	if len(cs) < 2 {
		return cs
	}
	idx := map[string]int{}
	var out []lexCase
	for _, c := range cs {
		if c.c == bFalse {
			continue
		}
		k := c.e.key()
		if i, ok := idx[k]; ok {
			out[i].c = lx.in.bd.or(out[i].c, c.c)
			continue
		}
		idx[k] = len(out)
		out = append(out, c)
	}
	if len(out) == 1 {
		out[0].c = bTrue
	}
	return out
}

// run gives the cases for a rope from a state.
func (lx *lexer) run(r *rope, mode string) []lexCase {
	k := fmt.Sprintf("%d %s", r.id, mode)
	if v, ok := lx.memo[k]; ok {
		return v
	}
	v := lx.run1(r, mode)
	if len(v) > lx.limit {
		lx.large++
		v = v[:lx.limit]
	}
	lx.memo[k] = v
	return v
}

func (lx *lexer) seq(cases []lexCase, r *rope) []lexCase {
	var out []lexCase
	for _, c := range cases {
		if c.e.err != "" {
			out = append(out, c)
			continue
		}
		for _, d := range lx.run(r, c.e.mode) {
			cc := lx.in.bd.and(c.c, d.c)
			if cc != bFalse {
				out = append(out, lexCase{cc, lx.then(c.e, d.e)})
			}
		}
	}
	return lx.merge(out)
}

func (lx *lexer) run1(r *rope, mode string) []lexCase {
	in := lx.in
	if strings.Contains(mode, markMode) {
		switch r.kind {
		case rHole, rTok, rConst:
			if r.kind == rHole && lx.wrapped(r.sym) != nil {
				break
			}
			if r.kind == rConst && r.s == "" {
				break
			}
			if cs := lx.onMark(r, mode); cs != nil {
				return lx.merge(cs)
			}
			mode = flush(mode)
		}
	}
	switch r.kind {
	case rConst:
		e := lexEff{}
		m := mode
		for i := 0; i < len(r.s); i++ {
			m = lx.step(m, r.s[i], r.pos, &e)
		}
		e.mode = m
		return []lexCase{{bTrue, e}}
	case rHole, rTok:
		m := flush(mode)
		if r.kind == rHole && m == "code" {
			if t := lx.wrapped(r.sym); t != nil {
				lx.cuts[t.id] = true
				for _, o := range r.ops {
					switch o.kind {
					case "replace", "replacer", "upper", "lower":
						t = in.rs.apply(t, o)
					}
				}
				return lx.run(t, mode)
			}
		}
		if lx.onHole != nil && r.kind == rHole {
			lx.onHole(r, m, lx.at)
		}
		if lx.onText != nil && r.kind == rHole {
			if cs := lx.onText(r, mode, lx.at); cs != nil {
				return lx.merge(cs)
			}
		}
		switch m {
		case `dq\`, `dq\!`:
			m = "dq"
		case `sq\`:
			m = "sq"
		case `bt\`:
			m = "bt"
		}
		return []lexCase{{bTrue, lexEff{mode: m}}}
	case rCat:
		cases := []lexCase{{bTrue, lexEff{mode: mode}}}
		at := lx.at
		for i, p := range r.parts {
			if lx.onHole != nil || lx.onText != nil {
				lx.place(r, i, cases, at)
			}
			cases = lx.seq(cases, p)
		}
		lx.at = at
		return cases
	case rIf:
		var out []lexCase
		for _, d := range lx.run(r.a, mode) {
			out = append(out, lexCase{in.bd.and(r.c, d.c), d.e})
		}
		for _, d := range lx.run(r.b, mode) {
			out = append(out, lexCase{in.bd.and(in.bd.not(r.c), d.c), d.e})
		}
		return lx.merge(out)
	case rStar:
		return lx.star(r, mode)
	case rJoin:
		return lx.run(in.joinRope(r), mode)
	}
	return []lexCase{{bTrue, lexEff{mode: mode}}}
}

// text gives the state after some characters.
func (lx *lexer) text(s, mode string) lexEff {
	e := lexEff{}
	for i := 0; i < len(s); i++ {
		mode = lx.step(mode, s[i], 0, &e)
	}
	e.mode = mode
	return e
}

// place tells about a hole that is part of a sequence, with the texts around it.
func (lx *lexer) place(r *rope, i int, cases []lexCase, outer holeAt) {
	var at holeAt
	for j := i - 1; j >= 0 && at.before == nil; j-- {
		if r.parts[j].kind == rConst {
			at.before = r.parts[j]
		}
	}
	for j := i + 1; j < len(r.parts) && at.after == nil; j++ {
		if r.parts[j].kind == rConst {
			at.after = r.parts[j]
		}
	}
	if at.before == nil && at.after == nil {
		at = outer
	}
	lx.at = at
	if r.parts[i].kind != rHole {
		return
	}
	seen := map[string]bool{}
	for _, c := range cases {
		if m := flush(c.e.mode); c.e.err == "" && !seen[m] {
			seen[m] = true
			delete(lx.memo, fmt.Sprintf("%d %s", r.parts[i].id, c.e.mode))
		}
	}
}

// wrapped gives the generated text inside a text that was changed in a way the ropes cannot
// express, like cutting it at a place that is not known. It is followed as if it were unchanged.
func (lx *lexer) wrapped(s *sym) *rope {
	if s.kind != "text" || len(s.args) == 0 {
		return nil
	}
	r, ok := s.args[0].(*rope)
	if !ok || r.kind == rConst || r.kind == rHole {
		return nil
	}
	return r
}

// joinRope writes a joined list as repetitions with a separator after each element.
func (in *interp) joinRope(r *rope) *rope {
	var conv func(segs []seg) *rope
	conv = func(segs []seg) *rope {
		var l []*rope
		for _, s := range segs {
			switch {
			case s.tok > 0:
			case s.ifelse:
				l = append(l, in.rs.ifelse(s.c, conv(s.a), conv(s.b)))
			case s.loop != nil:
				l = append(l, in.rs.star(s.loop, conv(s.a)))
			default:
				if t, ok := s.v.(*rope); ok {
					l = append(l, t, r.sep)
				}
			}
		}
		return in.rs.cat(l...)
	}
	return conv(r.segs)
}

// likely leaves out the cases that break something under conditions that cannot hold.
func (lx *lexer) likely(cs []lexCase, mode string) []lexCase {
	var out []lexCase
	for _, c := range cs {
		if c.e.err != "" || flush(c.e.mode) != mode || len(c.e.pops)+len(c.e.pushes) > 0 {
			if lx.in.bd.expand(c.c) == bFalse {
				continue
			}
		}
		out = append(out, c)
	}
	return out
}

func (lx *lexer) star(r *rope, mode string) []lexCase {
	in := lx.in
	some := in.nonemptyLoop(r.loop)
	mode = flush(mode)
	body := lx.likely(lx.run(r.body, mode), mode)
	var errs []lexCase
	var good []lexCase
	for _, c := range body {
		if c.e.err != "" {
			errs = append(errs, lexCase{bTrue, c.e})
			continue
		}
		c.e.mode = flush(c.e.mode)
		good = append(good, c)
	}
	good = lx.merge(good)
	neutral, stack := true, false
	for _, c := range good {
		if c.e.mode != mode || len(c.e.pops)+len(c.e.pushes) > 0 {
			neutral = false
		}
		if len(c.e.pops)+len(c.e.pushes) > 0 {
			stack = true
		}
	}
	if len(errs) > 0 || !neutral {
		if out := lx.machine(r, mode); out != nil {
			return out
		}
	}
	if len(errs) > 0 {
		return errs
	}
	if neutral {
		return []lexCase{{bTrue, lexEff{mode: mode}}}
	}
	if !stack {
		// only the state changes: follow it until it repeats
		modes := map[string]bool{mode: true}
		work := []string{mode}
		for len(work) > 0 {
			m := work[0]
			work = work[1:]
			for _, c := range lx.likely(lx.run(r.body, m), m) {
				if c.e.err != "" {
					return []lexCase{{bTrue, c.e}}
				}
				if len(c.e.pops)+len(c.e.pushes) > 0 {
					return []lexCase{{bTrue, lexEff{err: "a repeated text changes between string, comment and code", epos: lx.firstPos(r.body)}}}
				}
				if e := flush(c.e.mode); !modes[e] {
					modes[e] = true
					work = append(work, e)
				}
			}
		}
		var l []string
		for m := range modes {
			if m != mode {
				l = append(l, m)
			}
		}
		sort.Strings(l)
		out := []lexCase{{in.bd.not(some), lexEff{mode: mode}}}
		if len(good) > 1 || len(l) > 1 {
			g := fmt.Sprintf("state after %s", r.key())
			rest := some
			for _, m := range l {
				c := in.bd.atom(g+m, g, g+" "+m)
				out = append(out, lexCase{in.bd.and(some, c), lexEff{mode: m}})
				rest = in.bd.and(rest, in.bd.not(c))
			}
			out = append(out, lexCase{rest, lexEff{mode: mode}})
			return lx.merge(out)
		}
		out = append(out, lexCase{some, lexEff{mode: l[0]}})
		return out
	}
	// brackets per element
	var parts []string
	eff := lexEff{mode: mode}
	for _, c := range good {
		if c.e.mode != mode {
			return []lexCase{{bTrue, lexEff{err: "a repeated text changes between string, comment and code", epos: lx.firstPos(r.body)}}}
		}
		pops, pushes := chars(c.e.pops), chars(c.e.pushes)
		part := ""
		if lx.debug && (pops != "" || pushes != "") {
			fmt.Println("star", short(r.loop.key, 100), "pops", pops, "pushes", pushes, "when", in.bd.showAll(c.c))
		}
		if c.c != bTrue {
			part = fmt.Sprint(int(c.c))
		}
		switch {
		case pops == "" && pushes == "":
		case pops != "" && mirror(pops) == pushes || pops != "" && swap(pops) == pushes:
			eff.pops, eff.pushes = append(eff.pops, c.e.pops...), append(eff.pushes, c.e.pushes...)
			if len(good) > 1 {
				return []lexCase{{in.bd.not(some), lexEff{mode: mode}}, {some, eff}}
			}
			return []lexCase{{in.bd.not(some), lexEff{mode: mode}}, {some, eff}}
		case pops == "":
			eff.pushes = append(eff.pushes, lexSym{ch: pushes, pos: c.e.pushes[0].pos, loop: r.loop.key, part: part})
			parts = append(parts, pushes)
		case pushes == "":
			eff.pops = append(eff.pops, lexSym{ch: pops, pos: c.e.pops[0].pos, loop: r.loop.key, part: part})
			parts = append(parts, pops)
		default:
			var ps []token.Pos
			for _, s := range append(append([]lexSym{}, c.e.pops...), c.e.pushes...) {
				ps = append(ps, s.pos)
			}
			return []lexCase{{bTrue, lexEff{err: fmt.Sprintf("a repeated text closes %q and opens %q", pops, pushes), epos: ps}}}
		}
	}
	return []lexCase{{bTrue, eff}}
}

// machine follows a repeated text whose parts depend on the iteration being the first one, or on
// booleans set by earlier iterations, as a finite automaton: a state is the value of these
// together with the lexer's state and the brackets left open or closed so far. It gives nil where
// there are no such conditions or the states do not close.
func (lx *lexer) machine(r *rope, mode string) []lexCase {
	in := lx.in
	bd := in.bd
	whole := r.loop.whole
	if whole == "" {
		whole = r.loop.key
	}
	iv, hasIdx := bd.varOf["idx("+whole+")"]
	ic := -1
	if hasIdx {
		if c, ok := bd.cOf["idx("+whole+")\x00idx("+whole+")==0"]; ok {
			ic = c
		} else {
			hasIdx = false
		}
	}
	var flags []int
	has := map[int]bool{}
	useIdx := false
	var need func(f bdd)
	need = func(f bdd) {
		for v := range bd.support(f) {
			if hasIdx && v == iv {
				useIdx = true
			}
			if fl := in.flags[v]; fl != nil && fl.loop == r.loop.key && !has[v] {
				has[v] = true
				flags = append(flags, v)
				need(fl.next)
			}
		}
	}
	bodies := map[string][]lexCase{}
	body := func(mode string) []lexCase {
		if c, ok := bodies[mode]; ok {
			return c
		}
		c := lx.likely(lx.run(r.body, mode), mode)
		bodies[mode] = c
		for _, d := range c {
			need(d.c)
		}
		return c
	}
	body(mode)
	if len(flags) == 0 && !useIdx || len(flags) > 4 {
		return nil
	}
	sort.Ints(flags)
	nfl := len(flags)
	ones := make([]int, nfl)
	for i, v := range flags {
		g := bd.vars[v]
		ones[i] = bd.cOf[g+"\x00"+g[1:]]
	}
	fix := func(f bdd, val uint) bdd {
		for i, v := range flags {
			c := -1
			if val&(1<<i) != 0 {
				c = ones[i]
			}
			f = bd.restrict(f, v, c)
		}
		return f
	}
	type state struct {
		val   uint
		first bool
		e     lexEff
	}
	type found struct {
		s state
		c bdd // condition on the start
	}
	var work, all []found
	index := map[string]int{}
	add := func(f found) bool {
		k := fmt.Sprintf("%d %v %d %s", f.s.val, f.s.first, f.c, f.s.e.key())
		if _, ok := index[k]; ok {
			return true
		}
		if len(all) > 200 || len(f.s.e.pushes)+len(f.s.e.pops) > 12 {
			return false
		}
		index[k] = len(all)
		all = append(all, f)
		work = append(work, f)
		return true
	}
	for val := uint(0); val < 1<<nfl; val++ {
		c := bTrue
		for i, v := range flags {
			t := in.flags[v].init
			if val&(1<<i) == 0 {
				t = bd.not(t)
			}
			c = bd.and(c, t)
		}
		if c != bFalse {
			add(found{state{val, true, lexEff{mode: mode}}, c})
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if f.s.e.err != "" {
			continue
		}
		n := nfl
		for _, b := range body(flush(f.s.e.mode)) {
			if len(flags) != n {
				return nil
			}
			c := fix(b.c, f.s.val)
			if useIdx {
				if f.s.first {
					c = bd.restrict(c, iv, ic)
				} else {
					c = bd.and(c, bd.not(bd.node(iv, []int{ic}, []bdd{bTrue}, bFalse)))
				}
			}
			if c == bFalse {
				continue
			}
			for val := uint(0); val < 1<<nfl; val++ {
				t := c
				for i, v := range flags {
					nx := fix(in.flags[v].next, f.s.val)
					if useIdx && f.s.first {
						nx = bd.restrict(nx, iv, ic)
					}
					if val&(1<<i) == 0 {
						nx = bd.not(nx)
					}
					t = bd.and(t, nx)
				}
				if t == bFalse {
					continue
				}
				e := lx.then(f.s.e, b.e)
				if e.err == "" {
					e.mode = flush(e.mode)
				}
				if !add(found{state{val, false, e}, f.c}) {
					return nil
				}
			}
		}
	}
	some := in.nonemptyLoop(r.loop)
	out := []lexCase{{bd.not(some), lexEff{mode: mode}}}
	// states that look the same from outside but differ inside are told apart by a name
	group := map[string][]found{}
	var keys []string
	for _, f := range all {
		if f.s.first {
			continue
		}
		k := fmt.Sprintf("%d %d", f.s.val, f.c)
		if group[k] == nil {
			keys = append(keys, k)
		}
		dup := false
		for _, g := range group[k] {
			dup = dup || g.s.e.key() == f.s.e.key()
		}
		if !dup {
			group[k] = append(group[k], f)
		}
	}
	for _, k := range keys {
		rest := bTrue
		for i, f := range group[k] {
			c := bd.and(some, f.c)
			for j, v := range flags {
				a := in.flags[v].after
				if f.s.val&(1<<j) == 0 {
					a = bd.not(a)
				}
				c = bd.and(c, a)
			}
			c = bd.and(c, rest)
			if i+1 < len(group[k]) {
				g := fmt.Sprintf("state after %s %s", r.key(), k)
				a := bd.atom(fmt.Sprint(g, i), g, fmt.Sprint(g, " ", i))
				c = bd.and(c, a)
				rest = bd.and(rest, bd.not(a))
			}
			out = append(out, lexCase{c, f.s.e})
		}
	}
	return lx.merge(out)
}

func swap(s string) string {
	m := mirror(s)
	b := []byte(m)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return strings.Map(func(r rune) rune {
		switch r {
		case ')':
			return '('
		case ']':
			return '['
		case '}':
			return '{'
		}
		return r
	}, string(b))
}

func chars(l []lexSym) string {
	s := ""
	for _, x := range l {
		s += x.ch
	}
	return s
}

func (lx *lexer) firstPos(r *rope) []token.Pos {
	var out []token.Pos
	var walk func(r *rope)
	walk = func(r *rope) {
		if len(out) > 0 {
			return
		}
		switch r.kind {
		case rConst:
			if r.pos != 0 {
				out = append(out, r.pos)
			}
		case rCat:
			for _, p := range r.parts {
				walk(p)
			}
		case rIf:
			walk(r.a)
			walk(r.b)
		case rStar:
			walk(r.body)
		}
	}
	walk(r)
	return out
}
