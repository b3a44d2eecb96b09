package main

import (
	"fmt"
	"go/token"
	"html"
	"sort"
	"strings"
)

func init() {
	register(&check{
		id:        "C04",
		technique: "string-shape dataflow analysis: the page is computed as a grammar over the source, a reader of HTML finds the context of every text in it, and the operations applied to the text are composed with that reader as transducers",
		assumptions: []string{
			"every text of a page that is not constant and not a number can have any characters",
			"a text changed by operations other than replacement, cutting, trimming and case is not followed",
		},
		run: checkC04,
	})
}

// htmlAt is the state of a reader of HTML.
type htmlAt struct {
	kind string // text, <, name, tag, attr, =, dq, sq, uq, raw, comment, decl
	tag  string
	attr string
	js   string // state inside of a script: code, dq, sq, bt, each with \, line, block, block*
	ent  string // character reference being read
	of   byte   // what the character reference stands for
	buf  string
}

func (h htmlAt) key() string {
	return strings.Join([]string{h.kind, h.tag, h.attr, h.js, h.ent, string(h.of), h.buf}, "\x00")
}

func htmlFrom(s string) htmlAt {
	p := strings.Split(s, "\x00")
	h := htmlAt{kind: p[0], tag: p[1], attr: p[2], js: p[3], ent: p[4]}
	// the replaced character may be any one, also the separator
	h.buf = p[len(p)-1]
	if o := strings.Join(p[5:len(p)-1], "\x00"); o != "" {
		h.of = o[0]
	}
	return h
}

func (h htmlAt) name() string {
	switch h.kind {
	case "dq", "sq":
		switch {
		case h.js == "":
			return "value of attribute " + h.attr
		case h.js == "code":
			return "script of attribute " + h.attr
		}
		return "literal in the script of attribute " + h.attr
	case "uq", "=":
		return "unquoted value of attribute " + h.attr
	case "raw":
		return h.tag + " element"
	case "text":
		return "content"
	}
	return "tag"
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func blank(c byte) bool  { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

// htmlStep reads one character. A character of the user has to stand for itself.
func htmlStep(h htmlAt, s textSym, user bool) (htmlAt, string) {
	ch := s.ch()
	mine := user && !s.put()
	if h.ent != "" {
		switch {
		case ch == ';':
			t := html.UnescapeString(h.ent + ";")
			if len(t) == 0 || t == h.ent+";" {
				if user {
					return h, "a text gets a character reference that does not exist"
				}
				t = h.ent + ";"
			}
			if user && h.of != 0 && t[0] != h.of && strings.IndexByte("&<>\"'", h.of) >= 0 {
				return h, fmt.Sprintf("the character %c of a text is shown as %s", h.of, t)
			}
			h.ent, h.of = "", 0
			if h.js != "" {
				return h.script(t[0], user)
			}
			return h, ""
		case letter(ch) || ch >= '0' && ch <= '9' || ch == '#':
			h.ent += string(ch)
			return h, ""
		}
		if user {
			return h, "a character reference for a text is cut off"
		}
		h.ent, h.of = "", 0
	}
	switch h.kind {
	case "text":
		switch {
		case mine && ch == '<':
			return h, "a < in a text opens an element"
		case mine && ch == '&':
			return h, "an & in a text starts a character reference"
		case ch == '<':
			return htmlAt{kind: "<"}, ""
		case ch == '&' && user:
			h.ent, h.of = "&", s.of()
		}
		return h, ""
	case "<":
		switch {
		case mine:
			return h, "a text is part of a tag"
		case ch == '!':
			return htmlAt{kind: "decl"}, ""
		case letter(ch) || ch == '/':
			return htmlAt{kind: "name", tag: strings.ToLower(string(ch))}, ""
		}
		return htmlAt{kind: "text"}, ""
	case "decl":
		switch {
		case mine:
			return h, "a text is part of a tag"
		case ch == '>':
			return htmlAt{kind: "text"}, ""
		case len(h.buf) < 2:
			h.buf += string(ch)
			if h.buf == "--" {
				return htmlAt{kind: "comment"}, ""
			}
		}
		return h, ""
	case "comment":
		if ch == '>' && h.buf == "--" {
			if user {
				return h, "a text ends the comment it is in"
			}
			return htmlAt{kind: "text"}, ""
		}
		switch {
		case ch != '-':
			h.buf = ""
		case len(h.buf) < 2:
			h.buf += "-"
		}
		return h, ""
	case "raw":
		if mine && ch == '<' {
			return h, "a < in a text can end the " + h.tag
		}
		h.buf += strings.ToLower(string(ch))
		end := "</" + h.tag
		if h.buf == end {
			return htmlAt{kind: "name", tag: "/" + h.tag}, ""
		}
		for h.buf != "" && !strings.HasPrefix(end, h.buf) {
			h.buf = h.buf[1:]
		}
		if h.tag == "script" {
			return h.script(ch, mine)
		}
		if mine {
			return h, "a text is part of a style"
		}
		return h, ""
	case "dq", "sq":
		quote := byte('"')
		if h.kind == "sq" {
			quote = '\''
		}
		switch {
		case ch == quote:
			if mine {
				return h, "a quote in a text ends the attribute"
			}
			if h.js != "" && h.js != "code" {
				return h, "a script ends inside a literal or comment"
			}
			return htmlAt{kind: "tag", tag: h.tag}, ""
		case ch == '&':
			if mine {
				return h, "an & in a text starts a character reference"
			}
			h.ent, h.of = "&", s.of()
			return h, ""
		case h.js != "":
			return h.script(ch, mine)
		}
		return h, ""
	}
	// inside of a tag
	if mine {
		return h, "a text is part of a tag"
	}
	switch h.kind {
	case "=":
		switch {
		case blank(ch):
			return h, ""
		case ch == '"' || ch == '\'':
			n := htmlAt{kind: "dq", tag: h.tag, attr: h.attr}
			if ch == '\'' {
				n.kind = "sq"
			}
			if strings.HasPrefix(h.attr, "on") {
				n.js = "code"
			}
			return n, ""
		case ch != '>':
			h.kind = "uq"
			return h, ""
		}
	case "uq":
		if !blank(ch) && ch != '>' {
			return h, ""
		}
	}
	switch {
	case ch == '>':
		switch h.tag {
		case "script":
			return htmlAt{kind: "raw", tag: h.tag, js: "code"}, ""
		case "style":
			return htmlAt{kind: "raw", tag: h.tag}, ""
		}
		return htmlAt{kind: "text"}, ""
	case h.kind == "name" && !blank(ch):
		h.tag += strings.ToLower(string(ch))
		return h, ""
	case blank(ch) || ch == '/':
		return htmlAt{kind: "tag", tag: h.tag}, ""
	case ch == '=':
		h.kind = "="
		return h, ""
	}
	if h.kind != "attr" {
		h.attr = ""
	}
	return htmlAt{kind: "attr", tag: h.tag, attr: h.attr + strings.ToLower(string(ch))}, ""
}

// script reads one character of JavaScript.
func (h htmlAt) script(ch byte, user bool) (htmlAt, string) {
	esc := strings.HasSuffix(h.js, `\`)
	lit := strings.TrimSuffix(h.js, `\`)
	switch lit {
	case "code", "code/":
		if user {
			return h, "a text is part of a script"
		}
		next := "code"
		switch {
		case ch == '"':
			next = "dq"
		case ch == '\'':
			next = "sq"
		case ch == '`':
			next = "bt"
		case ch == '/' && lit == "code/":
			next = "line"
		case ch == '*' && lit == "code/":
			next = "block"
		case ch == '/':
			next = "code/"
		}
		h.js = next
	case "line":
		if ch == '\n' {
			if user {
				return h, "a line end in a text ends the comment"
			}
			h.js = "code"
		}
	case "block", "block*":
		switch {
		case ch == '/' && lit == "block*":
			if user {
				return h, "a text ends the comment it is in"
			}
			h.js = "code"
		case ch == '*':
			h.js = "block*"
		default:
			h.js = "block"
		}
	default:
		quote := map[string]byte{"dq": '"', "sq": '\'', "bt": '`'}[lit]
		switch {
		case esc:
			if user && ch != '\\' && ch != quote && ch != '"' && ch != '\'' {
				return h, "a backslash in a text is read as an escape"
			}
			h.js = lit
		case ch == '\\':
			h.js = lit + `\`
		case ch == quote:
			if user {
				return h, "a quote in a text ends the literal"
			}
			h.js = "code"
		case ch == '$' && lit == "bt" && user:
			return h, "a text starts an interpolation in the literal"
		case ch == '\n' && lit != "bt":
			return h, "a line end breaks the literal"
		}
	}
	return h, ""
}

type htmlReader struct {
	in     *interp
	memo   map[string][]string
	chains map[string][]textEnd
	found  func(h *rope, at htmlAt, near holeAt, fails map[string]string)
	broken func(r *rope, what string)
	at     holeAt
}

// run gives the states a text can end in.
func (hr *htmlReader) run(r *rope, mode string, pc bdd) []string {
	near := ""
	if r.kind == rHole {
		near = fmt.Sprint(hr.at.pos())
	}
	k := fmt.Sprintf("%d %d %s %s", r.id, pc, near, mode)
	if v, ok := hr.memo[k]; ok {
		return v
	}
	v := hr.run1(r, mode, pc)
	hr.memo[k] = v
	return v
}

func (hr *htmlReader) run1(r *rope, mode string, pc bdd) []string {
	in := hr.in
	switch r.kind {
	case rConst:
		h := htmlFrom(mode)
		for i := 0; i < len(r.s); i++ {
			var fail string
			if h, fail = htmlStep(h, textSym(r.s[i]), false); fail != "" {
				hr.broken(r, fail)
			}
		}
		return []string{h.key()}
	case rHole:
		return hr.text(r, mode, pc)
	case rCat:
		modes := []string{mode}
		outer := hr.at
		for i, p := range r.parts {
			hr.at = aroundPart(r, i, outer)
			var next []string
			for _, m := range modes {
				next = addStrings(next, hr.run(p, m, pc))
			}
			modes = next
		}
		hr.at = outer
		return modes
	case rIf:
		var out []string
		if c := in.bd.and(pc, r.c); c != bFalse {
			out = addStrings(out, hr.run(r.a, mode, c))
		}
		if c := in.bd.and(pc, in.bd.not(r.c)); c != bFalse {
			out = addStrings(out, hr.run(r.b, mode, c))
		}
		return out
	case rStar:
		modes := []string{mode}
		for i := 0; i < len(modes); i++ {
			modes = addStrings(modes, hr.run(r.body, modes[i], pc))
		}
		return modes
	case rJoin:
		return hr.run(in.joinRope(r), mode, pc)
	}
	return []string{mode}
}

// text follows a text of the user.
func (hr *htmlReader) text(r *rope, mode string, pc bdd) []string {
	in := hr.in
	if r.sym.kind == "itoa" {
		return []string{mode}
	}
	ops := r.ops
	stages, ok := textStages(ops)
	if !ok {
		return []string{mode}
	}
	var tests []textTestAt
	for k := 0; k <= len(ops); k++ {
		for _, t := range in.textTests[in.rs.hole(r.sym, ops[:k]).id] {
			if len(tests) < 6 && t.s != "" {
				t.stage = k
				tests = append(tests, t)
			}
		}
	}
	key := fmt.Sprintf("%s\x00%s\x00%v", mode, opsKey(ops), textFields[r.sym.name])
	for _, t := range tests {
		key += fmt.Sprintf(" %d %s %q", t.stage, t.kind, t.s)
	}
	ends, ok := hr.chains[key]
	if !ok {
		h := htmlFrom(mode)
		special := "&<>\"'"
		if h.js != "" {
			special += "\\`$*/"
			if textFields[r.sym.name] {
				// names are words
				special += "\n"
			}
		}
		if h.kind == "comment" {
			special += "-"
		}
		ends = textChain(stages, textAlphabet(stages, tests, special), tests, mode, func(m string, s textSym) (string, string) {
			n, fail := htmlStep(htmlFrom(m), s, true)
			return n.key(), fail
		})
		hr.chains[key] = ends
	}
	fails := map[string]string{}
	var out []string
	for _, e := range ends {
		c := pc
		for i, t := range tests {
			if e.tests[i] == '1' {
				c = in.bd.and(c, t.c)
			} else {
				c = in.bd.and(c, in.bd.not(t.c))
			}
		}
		if c == bFalse || in.bd.expand(c) == bFalse {
			continue
		}
		fail := e.fail
		if fail == "" {
			n := htmlFrom(e.mode)
			switch {
			case n.ent != "":
				fail = "a character reference for a text is cut off"
			case strings.HasSuffix(n.js, `\`):
				fail = "a text that ends in a backslash takes the character after it along"
			default:
				out = addStrings(out, []string{e.mode})
			}
		}
		if fail != "" && fails[fail] == "" {
			fails[fail] = fmt.Sprintf("%q", e.show)
		}
	}
	hr.found(r, htmlFrom(mode), hr.at, fails)
	if len(out) == 0 {
		out = []string{mode}
	}
	return out
}

func addStrings(l, add []string) []string {
	for _, s := range add {
		has := false
		for _, t := range l {
			has = has || s == t
		}
		if !has {
			l = append(l, s)
		}
	}
	return l
}

// aroundPart gives the constant texts around a part of a sequence.
func aroundPart(r *rope, i int, outer holeAt) holeAt {
	var at holeAt
	for j := i - 1; j >= 0 && at.before == nil; j-- {
		if r.parts[j].kind == rConst {
			at.before = r.parts[j]
		}
	}
	for j := i + 1; j < len(r.parts) && at.after == nil; j++ {
		if r.parts[j].kind == rConst {
			at.after = r.parts[j]
		}
	}
	if at.before == nil && at.after == nil {
		return outer
	}
	return at
}

// docCommand is the command that writes documentation
const docCommand = ":doc"

func checkC04(r *repo, x *result) {
	x.rule("text", "every text of a page stands for itself at its place: no character of it opens or ends an element, an attribute, a script or a character reference, and none is escaped twice")
	x.rule("page", "every page and its tags, attributes and scripts are closed by its own constant text")
	g, err := r.genRun(docCommand, "")
	if err != nil {
		x.fail("vacuous", "commands", "-", "%v", err)
		return
	}
	in := g.in
	in.runRoots()
	x.analysed["evaluations of functions"] += len(in.evals)
	x.analysed["texts"] += len(in.rs.all)
	places := map[string]int{}
	seen := map[string]bool{}
	hr := &htmlReader{in: in, memo: map[string][]string{}, chains: map[string][]textEnd{}}
	hr.found = func(h *rope, at htmlAt, near holeAt, fails map[string]string) {
		f := r.funcAt(near.pos())
		k := fmt.Sprintf("%s in the %s in %s", in.symText(h.sym), at.name(), f)
		if !seen[k] {
			seen[k] = true
			x.oblige("text")
			places[at.name()]++
			x.sample("text", k+" after "+short(opsShow(h.ops), 160))
		}
		var l []string
		for f := range fails {
			l = append(l, f)
		}
		sort.Strings(l)
		for _, m := range l {
			x.fail("text", fmt.Sprintf("%s: %s in %s", m, holeName(h.sym), f), r.pos(near.pos()),
				"%s: %s in the %s, for example %s", m, in.symText(h.sym), at.name(), fails[m])
		}
	}
	hr.broken = func(t *rope, what string) {
		x.fail("page", what+" in "+r.funcAt(t.pos), r.pos(t.pos), "%s", what)
	}
	pages := 0
	look := func(what string, pos token.Pos, t *rope) {
		for _, m := range hr.run(t, htmlAt{kind: "text"}.key(), bTrue) {
			x.oblige("page")
			if h := htmlFrom(m); h.kind != "text" {
				x.fail("page", what, r.pos(pos), "%s can end inside a %s", what, h.name())
			}
		}
	}
	for _, s := range in.sinks {
		if s.text.kind == rHole || s.text.kind == rConst {
			continue
		}
		pages++
		look("page "+in.pathEnd(s.path), s.pos, s.text)
	}
	for _, rt := range in.rootRes {
		for _, v := range rt.vs {
			if t, ok := v.(*rope); ok {
				look("result of "+rt.fn.Name(), rt.fn.Pos(), t)
			}
		}
	}
	if pages == 0 || len(seen) == 0 {
		x.fail("vacuous", "pages", "-", "no page with texts of a project is written")
	}
	for k, n := range places {
		x.analysed["texts in "+k] = n
	}
}
