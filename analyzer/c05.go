package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register(&check{
		id:        "C05",
		technique: "string-shape dataflow analysis: every place of a user's text in the generated files is found with the operations on the text, and the operations are composed as transducers with the lexer of the output language",
		assumptions: []string{
			"documentation, deprecation notes, test texts and quoted values can be any text; names and unquoted values are words without quotes and line ends",
			"a text changed by operations other than replacement, cutting, trimming and case is not followed",
			"bodies of native code are not texts",
		},
		run: checkC05,
	})
}

const textEscapes = "a text that ends in a backslash takes the character after it along"

// fields of definitions that hold text
var textFields = map[string]bool{"doc": true, "deprecated": true, "sideeffects": true, "text": true}

// freeText says whether a hole is a text that is not made by the compiler. Values are texts only
// when they are quoted, which is the condition given.
func (in *interp) freeText(r *rope) (bdd, bool) {
	s := r.sym
	switch s.kind {
	case "field":
		if !textFields[s.name] {
			return bFalse, false
		}
		b, ok := s.base.(*sym)
		if !ok || b.typ == nil {
			return bTrue, true
		}
		if n, ok := deref(b.typ).(*types.Named); ok && (n.Obj().Name() == "vxfile" || n.Obj().Name() == "vxmsg") {
			return bFalse, false
		}
		return bTrue, true
	case "opaque":
		if s.name != "assert.string" {
			return bFalse, false
		}
		h, q := in.rs.hole(s, nil), in.rs.konst("\"", 0)
		c := in.bd.and(in.textTest("HasPrefix", h, q), in.textTest("HasSuffix", h, q))
		// a quoted text has both of its quotes
		n := in.textLen(h, 0)
		c = in.bd.and(c, in.bd.and(in.less(in.num(1), n), in.bd.not(in.less(n, in.num(2)))))
		if code := in.siblingText(s.args[0], "code"); code != nil {
			c = in.bd.and(c, in.eqRope(code, in.rs.konst("string", 0), 0))
		}
		return c, true
	}
	return bFalse, false
}

// siblingText is the text of another field of the struct a field belongs to.
func (in *interp) siblingText(v value, name string) *rope {
	f, ok := v.(*sym)
	if !ok || f.kind != "field" {
		return nil
	}
	b, ok := f.base.(*sym)
	if !ok || b.typ == nil {
		return nil
	}
	st, ok := deref(b.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			r, _ := in.field(nil, b, st.Field(i)).(*rope)
			return r
		}
	}
	return nil
}

// readText follows a character of a text inside a literal or comment. A text may not leave it.
func readText(lang, mode string, s textSym) (string, string) {
	ch := s.ch()
	switch mode {
	case "dq", `dq\`, "sq", `sq\`, "bt", `bt\`, "tdq":
		lit := mode[:2]
		quote := map[string]byte{"dq": '"', "sq": '\'', "bt": '`', "td": '"'}[lit]
		if ch == '\n' && lit != "bt" && lit != "td" {
			return "", "a line end in a text breaks the literal"
		}
		if strings.HasSuffix(mode, `\`) {
			if lang == "swift" && ch == '(' {
				return "", "a text starts an interpolation in the literal"
			}
			return mode[:len(mode)-1], ""
		}
		switch {
		case ch == '\\' && lit != "td":
			return mode + `\`, ""
		case ch == quote:
			return "", "a quote in a text ends the literal"
		case ch == '$' && (lang == "kotlin" || lit == "bt"):
			return "", "a text starts an interpolation in the literal"
		}
	case "line":
		if ch == '\n' {
			return "", "a line end in a text ends the comment"
		}
	case "block", "block*", "block/":
		nest := lang == "kotlin" || lang == "swift"
		switch {
		case ch == '/' && mode == "block*":
			return "", "a text ends the comment it is in"
		case ch == '*' && mode == "block/" && nest:
			return "", "a text opens a comment inside the comment it is in"
		case ch == '*':
			return "block*", ""
		case ch == '/':
			return "block/", ""
		}
		return "block", ""
	}
	return mode, ""
}

// textCases gives the cases of the lexer for a text in a literal or comment.
func (lx *lexer) textCases(r *rope, mode string, quoted bdd, at holeAt, memo map[string][]textEnd) []lexCase {
	in := lx.in
	ops := r.ops
	base := 0
	for base < len(ops) && ops[base].kind == "slice" {
		base++
	}
	stages, ok := textStages(ops[base:])
	if !ok {
		return nil
	}
	var tests []textTestAt
	for k := base; k <= len(ops); k++ {
		if k == 0 && r.sym.kind == "opaque" {
			continue
		}
		for _, t := range in.textTests[in.rs.hole(r.sym, ops[:k]).id] {
			if len(tests) < 6 && t.s != "" {
				t.stage = k - base
				tests = append(tests, t)
			}
		}
	}
	start := mode
	switch start {
	case `code"`:
		start = "dq"
	case `dq\!`:
		return []lexCase{{bTrue, lexEff{err: textEscapes, epos: at.positions()}}}
	}
	key := fmt.Sprintf("%s %s", start, opsKey(ops[base:]))
	for _, t := range tests {
		key += fmt.Sprintf(" %d %s %q", t.stage, t.kind, t.s)
	}
	ends, ok := memo[key]
	if !ok {
		special := "\"\\\n"
		switch {
		case strings.HasPrefix(start, "block"):
			special = "*/\n"
		case start == "line":
			special = "\n"
		case strings.HasPrefix(start, "sq"):
			special = "'\\\n"
		case strings.HasPrefix(start, "bt"):
			special = "`\\$"
		}
		switch lx.lang {
		case "kotlin":
			special += "$"
		case "swift":
			special += "("
		}
		alphabet := textAlphabet(stages, tests, special)
		ends = textChain(stages, alphabet, tests, start, func(m string, s textSym) (string, string) { return readText(lx.lang, m, s) })
		memo[key] = ends
	}
	var out []lexCase
	for _, e := range ends {
		c := bTrue
		for i, t := range tests {
			if e.tests[i] == '1' {
				c = in.bd.and(c, t.c)
			} else {
				c = in.bd.and(c, in.bd.not(t.c))
			}
		}
		if c == bFalse {
			continue
		}
		eff := lexEff{mode: e.mode}
		switch {
		case e.fail != "":
			c = in.bd.and(c, quoted)
			eff = lexEff{err: e.fail, epos: at.positions()}
		case e.mode == `dq\`:
			c = in.bd.and(c, quoted)
			eff.mode = `dq\!`
		case e.mode == "block/":
			eff.mode = "block"
		}
		if c != bFalse {
			out = append(out, lexCase{c, eff})
		}
	}
	if !lx.strict {
		out = lx.calm(out, start)
	}
	// where it is not a text it stays where it is
	if quoted != bTrue {
		out = append(out, lexCase{in.bd.not(quoted), lexEff{mode: start}})
	}
	return out
}

// calm assumes that a text stays where it is, unless it always ends in a backslash.
func (lx *lexer) calm(cs []lexCase, start string) []lexCase {
	good := map[bdd]string{}
	for i := range cs {
		e := &cs[i].e
		if e.err != "" {
			e.err, e.epos, e.mode = "", nil, start
		}
		if e.mode == `dq\!` {
			e.mode = `dq\`
		}
		if e.mode != `dq\` {
			good[cs[i].c] = e.mode
		}
	}
	for i := range cs {
		if m, ok := good[cs[i].c]; ok {
			cs[i].e.mode = m
		}
	}
	return lx.merge(cs)
}

func (h holeAt) positions() []token.Pos {
	if p := h.pos(); p != 0 {
		return []token.Pos{p}
	}
	return nil
}

// followTexts makes the lexer follow the texts of definitions through literals and comments.
func (lx *lexer) followTexts(memo map[string][]textEnd, found func(h *rope, mode string, at holeAt)) {
	lx.onText = func(h *rope, mode string, at holeAt) []lexCase {
		m := flush(mode)
		if m == "code" {
			return nil
		}
		quoted, ok := lx.in.freeText(h)
		if !ok {
			return nil
		}
		if !lx.strict {
			quoted = bTrue
		}
		if mode == "block*" {
			m = mode
		}
		cs := lx.textCases(h, m, quoted, at, memo)
		if cs != nil && found != nil {
			found(h, m, at)
		}
		return cs
	}
}

func opsShow(ops []op) string {
	s := ""
	for _, o := range ops {
		s += fmt.Sprintf("%s(%q,%q)", o.kind, o.a, o.b)
	}
	return s
}

var textErrors = []string{textEscapes, "a line end in a text", "a text ", "a quote in a text", "escaped text"}

func checkC05(r *repo, x *result) {
	x.rule("text", "a text of the user stays inside the literal or comment it is written to, whatever characters it has")
	x.rule("language", "every output language has texts in literals and comments")
	total := 0
	r.eachRun(x, codeCommands, func(g *genRun) {
		in := g.in
		in.runRoots()
		lang := strings.TrimPrefix(g.lang, ":")
		lx := newLexer(in, lang)
		lx.strict, lx.flat = true, true
		memo := map[string][]textEnd{}
		places := map[string]int{}
		lx.followTexts(memo, func(h *rope, mode string, at holeAt) {
			places[modeName(mode)]++
			x.sample("text", fmt.Sprintf("%s %s: %s in a %s at %s after %s", g.code, g.lang, in.symText(h.sym), modeName(mode), r.funcAt(at.pos()), short(opsShow(h.ops), 200)))
		})
		look := func(what string, pc bdd, t *rope) {
			x.oblige("text")
			for _, c := range lx.run(t, "code") {
				isText := false
				for _, p := range textErrors {
					isText = isText || strings.HasPrefix(c.e.err, p)
				}
				if !isText {
					continue
				}
				cc := in.bd.and(c.c, pc)
				if cc == bFalse || in.bd.expand(cc) == bFalse {
					continue
				}
				f, pos := "?", "-"
				if len(c.e.epos) > 0 {
					f, pos = r.funcAt(c.e.epos[0]), r.pos(c.e.epos[0])
				}
				x.fail("text", c.e.err+" in "+f, pos, "%s, in %s of %s %s, for example when %s",
					c.e.err, what, g.code, g.lang, short(in.bd.show(cc), 600))
			}
		}
		for _, s := range in.sinks {
			look("file "+in.pathEnd(s.path), s.pc, s.text)
		}
		for _, rt := range in.rootRes {
			for _, v := range rt.vs {
				if t, ok := v.(*rope); ok {
					look("the result of "+rt.fn.Name(), bTrue, t)
				}
			}
		}
		for m, n := range places {
			x.analysed["places of text in a "+m] += n
			total += n
		}
		x.analysed["chains of operations"] += len(memo)
		x.oblige("language")
	})
	if total == 0 {
		x.fail("vacuous", "texts", "-", "no text of a definition was found in the generated files")
	}
}
