package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&check{
		id:        "C08",
		technique: "string-shape dataflow analysis: the text of every generated file is computed as a grammar over the source, and every loop over definitions is asked under which conditions the name of an element is left out",
		assumptions: []string{
			"the collections of a package hold its definitions; how they are filled is the subject of C10 and C11",
			"a text that contains the name of a definition stands for the definition",
			"files are written when the file system lets the compiler write",
		},
		run: checkC08,
	})
}

// definition is a kind of definition and the loops that reach all of them from a package.
type definition struct {
	kind  string
	field string
	depth int
}

// definitionsOf lists the collections of definitions that a package holds.
func (r *repo) definitionsOf() []definition {
	pkg := r.typ("vxpackage")
	if pkg == nil {
		return nil
	}
	st, ok := pkg.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	kinds := map[string]types.Type{"type": r.typ("vxtype"), "constant": r.typ("vxconst"), "function": r.typ("vxfunc")}
	var out []definition
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		t, n := f.Type(), 0
		for {
			if m, ok := t.Underlying().(*types.Map); ok {
				t = m.Elem()
			} else if s, ok := t.Underlying().(*types.Slice); ok {
				t = s.Elem()
			} else {
				break
			}
			n++
		}
		for k, d := range kinds {
			if n > 0 && d != nil && isPtrTo(t, d) {
				out = append(out, definition{k, f.Name(), n})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].kind+out[i].field < out[j].kind+out[j].field })
	return out
}

// chain is the keys of the loops that reach the elements.
func (d definition) chain(pkg string) []string {
	k := pkg + "." + d.field
	out := []string{k}
	for i := 1; i < d.depth; i++ {
		k += "[*]"
		out = append(out, k)
	}
	return out
}

// saying is how far a text has come in naming one element.
type saying struct {
	named    bool // the name has been written
	quoted   int  // 1 a string literal begins, 2 the name is in a literal on this line
	pend     int  // 1 + the number of brackets open since the name was written in this statement
	call     bool // an argument list came after the name
	declared bool // a statement with the name has a body
	valued   bool // a statement with the name has a value
	called   bool // a statement with the name has arguments and neither
	calls    bool // something is called
	empty    bool // what comes next is the name of an empty value
	listed   bool // a line has the name in a literal and then an identifier made of it
}

// noValue is how a variable is declared before it has its value.
var noValue = regexp.MustCompile(`^\s*(?i:null|nil|nullptr)\b`)

// end is the end of a statement.
func (s saying) end() saying {
	s.called = s.called || s.call
	s.pend, s.call = 0, false
	return s
}

type namer struct {
	in    *interp
	chain []string
	elem  string
	memo  map[namerKey]map[saying]bdd
}

type namerKey struct {
	id, depth int
	s         saying
}

func newNamer(in *interp, chain []string) *namer {
	return &namer{in: in, chain: chain, elem: chain[len(chain)-1] + "[*]", memo: map[namerKey]map[saying]bdd{}}
}

// says tells whether a symbol carries the name of the element.
func (n *namer) says(s *sym, depth, level int) bool {
	if s == nil || level > 6 {
		return false
	}
	if s.kind == "field" && (s.name == "name" || s.name == "alias") && s.base != nil && s.base.key() == n.elem {
		return true
	}
	if s.kind == "mapkey" && depth == len(n.chain) {
		for _, k := range n.chain {
			if s.k == "key("+k+")" {
				return true
			}
		}
	}
	if s.kind == "field" && s.base != nil && s.base.key() == n.elem {
		return false
	}
	if b, ok := s.base.(*sym); ok && s.kind != "field" && n.says(b, depth, level+1) {
		return true
	}
	for _, a := range s.args {
		if a == nil {
			continue
		}
		if a.key() == n.elem {
			return true
		}
		switch a := a.(type) {
		case *sym:
			if n.says(a, depth, level+1) {
				return true
			}
		case *rope:
			if a.kind == rHole && n.says(a.sym, depth, level+1) {
				return true
			}
		}
	}
	return false
}

// own says whether a condition is about the name of the element.
func (n *namer) own(c bdd) bool {
	for v := range n.in.bd.support(c) {
		g := n.in.bd.vars[v]
		if g == n.elem || strings.Contains(g, n.elem+".name") || strings.Contains(g, n.elem+".alias") || strings.Contains(g, "key("+n.chain[0]+")") {
			return true
		}
		if strings.HasPrefix(g, "R") {
			if i, err := strconv.Atoi(g[1:]); err == nil && i < len(n.in.rs.all) && n.names(n.in.rs.all[i]) {
				return true
			}
		}
	}
	return false
}

// names says whether a text is made of the name of the element.
func (n *namer) names(r *rope) bool {
	switch r.kind {
	case rHole:
		return n.says(r.sym, len(n.chain), 0)
	case rCat:
		for _, p := range r.parts {
			if n.names(p) {
				return true
			}
		}
	case rIf:
		return n.names(r.a) || n.names(r.b)
	}
	return false
}

func (n *namer) hole(s saying) saying {
	s.named = true
	switch s.quoted {
	case 1:
		s.quoted = 2
		return s
	case 2:
		s.listed = s.listed || !s.empty
		return s
	}
	if s.pend == 0 {
		s.pend = 1
	}
	return s
}

func (n *namer) text(s saying, t string) saying {
	s.empty = s.quoted == 2 && (t == "" && s.empty || strings.HasSuffix(t, "e_"))
	for i := 0; i < len(t); i++ {
		if s.quoted == 1 {
			s.quoted = 0
		}
		switch t[i] {
		case '"':
			if s.quoted == 0 {
				s.quoted = 1
			}
		case '\n':
			s.quoted = 0
			s.empty = false
			if s.pend == 1 {
				s = s.end()
			}
		case ';':
			if s.pend == 1 {
				s = s.end()
			}
		case '=':
			if s.pend == 1 && (i+1 == len(t) || t[i+1] != '=' && t[i+1] != '>') && !noValue.MatchString(t[i+1:]) {
				s.valued, s.call = true, false
			}
		case '(', '[':
			s.calls = true
			if s.pend > 0 && s.pend < 5 {
				s.pend++
				s.call = s.call || t[i] == '('
			}
		case ')', ']':
			switch {
			case s.pend > 1:
				s.pend--
			case s.pend == 1:
				s = s.end()
			}
		case '{':
			if s.pend > 0 {
				s.declared, s.pend, s.call = true, 0, false
			}
		case '}':
			if s.pend > 0 {
				s = s.end()
			}
		}
	}
	return s
}

func (n *namer) merge(to map[saying]bdd, c bdd, from map[saying]bdd) {
	for s, d := range from {
		e := n.in.bd.and(c, d)
		if e == bFalse {
			continue
		}
		to[s] = n.in.bd.or(to[s], e)
	}
}

// run follows a text from one state; depth is the number of loops of the chain it is inside of.
func (n *namer) run(r *rope, depth int, s saying) map[saying]bdd {
	k := namerKey{r.id, depth, s}
	if m, ok := n.memo[k]; ok {
		return m
	}
	out := map[saying]bdd{}
	switch r.kind {
	case rConst:
		out[n.text(s, r.s)] = bTrue
	case rHole:
		if n.says(r.sym, depth, 0) {
			out[n.hole(s)] = bTrue
		} else {
			if s.quoted == 1 {
				s.quoted = 0
			}
			out[s] = bTrue
		}
	case rCat:
		cur := map[saying]bdd{s: bTrue}
		for _, p := range r.parts {
			next := map[saying]bdd{}
			for t, c := range cur {
				n.merge(next, c, n.run(p, depth, t))
			}
			cur = next
		}
		out = cur
	case rIf:
		arm := func(t *rope) map[saying]bdd {
			if t.kind == rConst && t.s != "" && depth == len(n.chain) && n.own(r.c) {
				return map[saying]bdd{n.hole(s): bTrue}
			}
			return n.run(t, depth, s)
		}
		n.merge(out, r.c, arm(r.a))
		n.merge(out, n.in.bd.not(r.c), arm(r.b))
	case rStar:
		n.merge(out, bTrue, n.loop(r.loop, s, depth, func(d int) map[saying]bdd { return n.run(r.body, d, s) }))
	case rJoin:
		out = n.segs(r.segs, depth, s)
	default:
		out[s] = bTrue
	}
	for t, c := range out {
		out[t] = n.in.bd.cap(c, 400)
	}
	n.memo[k] = out
	return out
}

func (n *namer) loop(l *rloop, s saying, depth int, body func(int) map[saying]bdd) map[saying]bdd {
	if depth < len(n.chain) && (l.key == n.chain[depth] || l.whole == n.chain[depth]) && l.early == bFalse {
		return body(depth + 1)
	}
	if c, ok := l.coll.(*sym); ok && depth == len(n.chain) && n.says(c, depth, 0) {
		// the parts of the name
		return body(depth)
	}
	return map[saying]bdd{s: bTrue}
}

func (n *namer) segs(l []seg, depth int, s saying) map[saying]bdd {
	cur := map[saying]bdd{s: bTrue}
	for _, g := range l {
		next := map[saying]bdd{}
		for t, c := range cur {
			switch {
			case g.tok > 0:
				n.merge(next, c, map[saying]bdd{t: bTrue})
			case g.ifelse:
				n.merge(next, n.in.bd.and(c, g.c), n.segs(g.a, depth, t))
				n.merge(next, n.in.bd.and(c, n.in.bd.not(g.c)), n.segs(g.b, depth, t))
			case g.loop != nil:
				n.merge(next, c, n.loop(g.loop, t, depth, func(d int) map[saying]bdd { return n.segs(g.a, d, t) }))
			default:
				if v, ok := g.v.(*rope); ok {
					n.merge(next, c, n.run(v, depth, t))
				} else {
					n.merge(next, c, map[saying]bdd{t: bTrue})
				}
			}
		}
		cur = next
	}
	return cur
}

// unless is the condition under which a text leaves an element without a property.
func (n *namer) unless(r *rope, depth int, has func(saying) bool) bdd {
	out := bFalse
	for s, c := range n.run(r, depth, saying{}) {
		if !has(s.end()) {
			out = n.in.bd.or(out, c)
		}
	}
	out = n.in.bd.expand(out)
	// the element is there
	for v := range n.in.bd.support(out) {
		if g := n.in.bd.vars[v]; strings.HasPrefix(g, "?some(") && strings.Contains(g, n.chain[0]) && !strings.Contains(g, n.elem) {
			out = n.in.bd.given(out, v, true)
		} else if g == n.elem+".pkgname" {
			// parts of the core package are written by hand
			out = n.in.bd.except(out, v, `"vx/core"`)
		} else if g == n.elem {
			// not one of the compiler's own
			out = n.in.bd.restrict(out, v, -1)
		} else if g == "?"+n.elem+".isgeneric" || g == "?"+n.elem+".isfunc" {
			out = n.in.bd.given(out, v, false)
		}
	}
	return out
}

// given is f when the atom of variable v holds or not.
func (b *bdds) given(f bdd, v int, holds bool) bdd {
	g := b.vars[v]
	if c, ok := b.cOf[g+"\x00"+strings.TrimPrefix(g, "?")]; ok && holds {
		return b.restrict(f, v, c)
	}
	return b.restrict(f, v, -1)
}

// constOf is the constant of a variable with a description, or none of its constants.
func (b *bdds) constOf(v int, text string) int {
	g := b.vars[v] + "\x00"
	for k, c := range b.cOf {
		if strings.HasPrefix(k, g) && strings.HasSuffix(b.consts[c], " is "+text) {
			return c
		}
	}
	return -1
}

// except is f where variable v does not have the value with a description.
func (b *bdds) except(f bdd, v int, text string) bdd {
	if c := b.constOf(v, text); c >= 0 {
		return b.and(f, b.not(b.node(v, []int{c}, []bdd{bTrue}, bFalse)))
	}
	return f
}

// some is f for the best value of variable v.
func (b *bdds) some(f bdd, v int) bdd {
	out := b.restrict(f, v, -1)
	g := b.vars[v] + "\x00"
	for k, c := range b.cOf {
		if strings.HasPrefix(k, g) {
			out = b.or(out, b.restrict(f, v, c))
		}
	}
	return out
}

// stars lists the loops of a text.
func stars(t *rope, use func(l *rloop, body *rope, segs []seg)) {
	seen := map[int]bool{}
	var segs func(l []seg)
	var walk func(t *rope)
	walk = func(t *rope) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		switch t.kind {
		case rCat:
			for _, p := range t.parts {
				walk(p)
			}
		case rIf:
			walk(t.a)
			walk(t.b)
		case rStar:
			use(t.loop, t.body, nil)
			walk(t.body)
		case rJoin:
			segs(t.segs)
		}
	}
	segs = func(l []seg) {
		for _, g := range l {
			if v, ok := g.v.(*rope); ok {
				walk(v)
			}
			if g.loop != nil {
				use(g.loop, nil, g.a)
			}
			segs(g.a)
			segs(g.b)
		}
	}
	walk(t)
}

// unlessListed is unless for a text in which some elements come first in an order of their own:
// those are looked up by key in a loop over the keys, and left out of the loop over all elements.
func (n *namer) unlessListed(t *rope, has func(saying) bool) bdd {
	out := n.unless(t, 0, has)
	apart := func(v int) string {
		m := keyTable.FindStringSubmatch(n.in.bd.vars[v])
		if m == nil {
			return ""
		}
		i, _ := strconv.Atoi(m[1])
		if i < len(n.in.rs.all) && n.in.rs.all[i].kind == rHole && len(n.in.rs.all[i].ops) == 0 {
			return n.in.rs.all[i].sym.k
		}
		return ""
	}
	keys := map[string]int{}
	for v := range n.in.bd.support(out) {
		if k := apart(v); k != "" {
			keys[k] = v
		}
	}
	tried := map[string]bool{}
	stars(t, func(l *rloop, _ *rope, _ []seg) {
		v, ok := keys[l.key+"[*]"]
		if !ok || tried[l.key] {
			return
		}
		tried[l.key] = true
		elem := n.chain[0] + "[" + l.key + "[*]]"
		chain := []string{l.key}
		for range n.chain[1:] {
			chain = append(chain, elem)
			elem += "[*]"
		}
		m := newNamer(n.in, chain)
		m.elem = elem
		c := m.unless(t, 0, has)
		for v := range n.in.bd.support(c) {
			switch g := n.in.bd.vars[v]; {
			case g == l.key+"[*]":
				c = n.in.bd.restrict(c, v, -1)
			case strings.HasPrefix(g, "?has("+n.chain[0]+"["):
				c = n.in.bd.given(c, v, true)
			case !strings.Contains(g, elem):
				// what has to hold for there to be keys
				c = n.in.bd.not(n.in.bd.some(n.in.bd.not(c), v))
			}
		}
		if c == bFalse {
			out = n.in.bd.given(out, v, false)
		}
	})
	return out
}

// keyTable is a question whether a key is in a table of the keys of a loop.
var keyTable = regexp.MustCompile(`^\?has\(M\[\*R(\d+)\*=`)

// packageLoop is the loop over all packages of the project that a file is written in.
func (g *genRun) packageLoop(s sink, pkg types.Type) *rloop {
	if len(s.loops) == 0 {
		return nil
	}
	l := s.loops[len(s.loops)-1]
	if v, ok := l.coll.(*sym); ok && v.typ != nil {
		if t, ok := v.typ.Underlying().(*types.Slice); ok && isPtrTo(t.Elem(), pkg) {
			return l
		}
	}
	return nil
}

// limited says whether a language is configured for some of the packages only.
func (g *genRun) limited() string {
	langs, _ := g.in.languages()
	o := langs[g.lang]
	t := g.in.r.typ("vxlang")
	if o == nil || t == nil {
		return ""
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s, ok := f.Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(s.Elem(), types.Typ[types.String]) {
			continue
		}
		if l, ok := g.in.base.get(skey{ref: o.key(), field: f.Name()}).(*listv); ok && len(l.segs) > 0 {
			return f.Name()
		}
	}
	return ""
}

// leftOut is the condition under which a definition is left out, and the loop it was left out of.
type leftOut struct {
	c       bdd
	pos, fn string
}

// left finds the condition under which none of the texts has the property for a definition of a
// kind. The definitions may be reached through any of the collections of the package.
func (g *genRun) left(defs []definition, kind, pkg string, texts []*rope, has func(saying) bool, wanted func(*namer, bdd) bdd) leftOut {
	in := g.in
	out := leftOut{bTrue, "-", ""}
	for _, d := range defs {
		if d.kind != kind {
			continue
		}
		n := newNamer(in, d.chain(pkg))
		c := bTrue
		pos, fn := "-", ""
		for _, t := range texts {
			c = in.bd.and(c, wanted(n, n.unlessListed(t, has)))
			stars(t, func(l *rloop, _ *rope, _ []seg) {
				if k := n.chain[len(n.chain)-1]; (l.key == k || l.whole == k) && fn == "" {
					pos, fn = in.r.pos(l.pos), in.r.funcAt(l.pos)
				}
			})
		}
		if c == bFalse || out.c == bTrue && fn != "" {
			out = leftOut{c, pos, fn}
		}
		if c == bFalse {
			break
		}
	}
	return out
}

func checkC08(r *repo, x *result) {
	x.rule("package", "for every output language the source and the test command write the files of every package of the project whenever the file system lets them")
	x.rule("declared", "the source files of a package declare every type, constant and function overload: under every condition there is a statement with its name that has a body or a value")
	x.rule("listed", "the source files of a package register every type, constant and function overload under its name")
	x.rule("test", "the test file of a package has a test for every type, constant and function overload with tests")
	x.rule("run", "every test is called by the test of its package")
	x.rule("suite", "the test program runs the tests of every package")
	x.rule("doc", "every list of packages or definitions in the documentation has all of them")
	defs := r.definitionsOf()
	pkg := r.typ("vxpackage")
	if len(defs) == 0 || pkg == nil {
		x.fail("vacuous", "definitions", "-", "no package type with collections of definitions was found")
		return
	}
	kinds := []string{"type", "constant", "function"}
	declared := func(s saying) bool { return s.declared }
	given := func(s saying) bool { return s.declared || s.valued }
	listed := func(s saying) bool { return s.listed }
	called := func(s saying) bool { return s.called }
	ran := func(s saying) bool { return s.calls }
	lists := map[string]int{}
	var tables []func()
	use := func(g *genRun) {
		in := g.in
		// conditions that a test is meant to depend on
		wanted := func(n *namer, c bdd) bdd {
			for v := range in.bd.support(c) {
				k := in.bd.vars[v]
				switch {
				case k == "command.filter":
					c = in.bd.restrict(c, v, in.bd.constOf(v, `""`))
				case strings.HasPrefix(k, "?some("+n.elem+"."):
					c = in.bd.given(c, v, true)
				case k == n.elem+".clientserver" && g.lang == ":js":
					c = in.bd.restrict(c, v, -1)
				}
			}
			return c
		}
		limited := g.limited()
		if limited != "" {
			x.notes = append(x.notes, fmt.Sprintf("%s is configured for some of the packages (%s): which packages it writes is not checked", g.lang, limited))
		}
		files := map[string][]sink{}
		var order []string
		for _, s := range in.sinks {
			if l := g.packageLoop(s, pkg); l != nil {
				if files[l.key] == nil {
					order = append(order, l.key)
				}
				files[l.key] = append(files[l.key], s)
			}
		}
		what := strings.TrimPrefix(g.lang, ":") + strings.TrimPrefix(g.code, ":")
		own := g.proj.k + ".listpackage"
		x.oblige("package")
		if files[own] == nil {
			x.fail("package", what, "-", "%s %s writes no file for each of the packages of the project", g.lang, g.code)
		}
		for _, k := range order {
			// the file of every package is written
			byPath := map[string]bdd{}
			at := map[string]sink{}
			for _, s := range files[k] {
				p := s.path.key()
				byPath[p] = in.bd.or(byPath[p], s.pc)
				at[p] = s
			}
			var paths []string
			for p := range byPath {
				paths = append(paths, p)
			}
			sort.Strings(paths)
			for _, p := range paths {
				x.oblige("package")
				s := at[p]
				c := in.bd.expand(byPath[p])
				for v := range in.bd.support(c) {
					if g := in.bd.vars[v]; strings.Contains(g, "call:os.") || strings.HasPrefix(g, "?msg:") || strings.HasPrefix(g, "msg:") {
						c = in.bd.some(c, v)
					}
				}
				l := s.loops[len(s.loops)-1]
				for _, o := range s.loops {
					if o.early != bFalse {
						x.fail("package", what+" "+in.pathEnd(s.path)+" early", r.pos(o.pos), "%s %s: the loop in %s over %s ends before the last one (%s), so the remaining files %s are not written", g.lang, g.code, r.funcAt(o.pos), o.key, short(in.bd.show(o.early), 200), in.pathEnd(s.path))
					}
				}
				if limited == "" && c != bTrue {
					x.fail("package", what+" "+in.pathEnd(s.path), r.pos(l.pos), "%s %s: the file %s of a package is not written when %s (loop in %s)", g.lang, g.code, in.pathEnd(s.path), short(in.bd.show(in.bd.not(c)), 200), r.funcAt(l.pos))
				}
			}
			var texts []*rope
			ends := map[*rope]string{}
			for _, s := range files[k] {
				if _, ok := ends[s.text]; !ok {
					texts = append(texts, s.text)
					ends[s.text] = in.pathEnd(s.path)
				}
			}
			for _, kind := range kinds {
				type need struct {
					rule, text string
					has        func(saying) bool
				}
				needs := []need{{"declared", "is not declared", declared}, {"listed", "is not registered under its name", listed}}
				if kind == "constant" {
					needs[0].has = given
				}
				if g.code == ":test" {
					needs = []need{{"test", "has no test", declared}, {"run", "has a test that is not called", called}}
				}
				for _, nd := range needs {
					if nd.rule == "declared" {
						// in every file of the package
						for _, t := range texts {
							x.oblige(nd.rule)
							if m := g.left(defs, kind, k+"[*]", []*rope{t}, nd.has, wanted); m.c != bFalse {
								x.fail(nd.rule, what+" "+ends[t]+" "+kind, m.pos, "%s: in the file %s of a package (%s) a %s %s when %s (loop in %s)", g.lang, ends[t], k, kind, nd.text, short(in.bd.show(m.c), 300), m.fn)
							}
						}
						continue
					}
					m := g.left(defs, kind, k+"[*]", texts, nd.has, wanted)
					if nd.rule == "listed" {
						if m.c != bTrue {
							lists[g.lang]++
						}
						tables = append(tables, func() {
							x.oblige("listed")
							if lists[g.lang] > 0 && m.c != bFalse {
								x.fail("listed", what+" "+kind, m.pos, "%s: in the files of a package (%s) a %s %s when %s (loop in %s)", g.lang, k, kind, nd.text, short(in.bd.show(m.c), 300), m.fn)
							}
						})
						continue
					}
					x.oblige(nd.rule)
					if m.c != bFalse {
						x.fail(nd.rule, what+" "+kind, m.pos, "%s %s: in the files of a package (%s) a %s %s when %s (loop in %s)", g.lang, g.code, k, kind, nd.text, short(in.bd.show(m.c), 300), m.fn)
					}
				}
			}
		}
		if g.code == ":test" && limited == "" {
			some := 0
			for _, s := range in.sinks {
				if len(s.loops) > 0 {
					continue
				}
				some += r.eachLoop(x, g, "suite", what+" package", "the test program, "+g.lang, []string{own}, s.text, ran, wanted)
			}
			if some == 0 {
				x.fail("suite", what, "-", "%s: the test program runs the tests of no package", g.lang)
			}
		}
	}
	r.eachRun(x, codeCommands, use)
	for _, f := range tables {
		f()
	}
	if len(lists) < 2 {
		x.fail("vacuous", "tables", "-", "no output language registers definitions")
	}
	r.checkDocLists(x, defs)
	x.atLeast("declared", 6)
}

// checkDocLists looks at every loop of the documentation.
func (r *repo) checkDocLists(x *result, defs []definition) {
	g, err := r.genRun(":doc", "")
	if err != nil {
		x.fail("vacuous", "doc", "-", "%v", err)
		return
	}
	in := g.in
	own := g.proj.k + ".listpackage"
	named := func(s saying) bool { return s.named }
	found := map[string]int{}
	same := func(_ *namer, c bdd) bdd { return c }
	for _, s := range in.sinks {
		found["package"] += r.eachLoop(x, g, "doc", "package", "the documentation", []string{own}, s.text, named, same)
		for _, d := range defs {
			found[d.kind] += r.eachLoop(x, g, "doc", d.kind, "the documentation", append([]string{own}, d.chain(own+"[*]")...), s.text, named, same)
		}
	}
	for _, k := range []string{"package", "type", "constant", "function"} {
		if found[k] == 0 {
			x.fail("doc", "no "+k, "-", "the documentation lists no %s", k)
		}
	}
}

// eachLoop looks at every loop of a text over the elements at the end of a chain that has the
// property for some elements: it has it for all of them.
func (r *repo) eachLoop(x *result, g *genRun, rule, key, what string, chain []string, t *rope, has func(saying) bool, wanted func(*namer, bdd) bdd) int {
	in := g.in
	last := chain[len(chain)-1]
	done := map[int]bool{}
	found := 0
	stars(t, func(l *rloop, body *rope, segs []seg) {
		if l.key != last && l.whole != last {
			return
		}
		if body == nil {
			body = in.rs.join(segs, in.rs.konst("\n", 0))
		}
		if done[body.id] {
			return
		}
		done[body.id] = true
		n := newNamer(in, chain)
		c := wanted(n, n.unless(body, len(chain), has))
		for v := range in.bd.support(c) {
			if in.bd.vars[v] == n.elem+".name" {
				// a name is not empty
				c = in.bd.except(c, v, `""`)
			}
		}
		if c == bTrue {
			return
		}
		x.oblige(rule)
		found++
		k := key + " " + r.funcAt(l.pos)
		if l.early != bFalse {
			x.fail(rule, k+" early", r.pos(l.pos), "%s: the loop in %s over %s ends before the last one (%s)", what, r.funcAt(l.pos), l.key, short(in.bd.show(l.early), 200))
		}
		if c != bFalse {
			x.fail(rule, k, r.pos(l.pos), "%s: the loop in %s over %s leaves one out when %s", what, r.funcAt(l.pos), l.key, short(in.bd.show(c), 200))
		}
	})
	return found
}
