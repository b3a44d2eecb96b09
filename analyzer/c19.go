package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register(&check{
		id:        "C19",
		technique: "string-shape dataflow analysis: every place of a name in the code of a generated file is found with the operations on it, and the operations are composed as transducers over the characters of names",
		assumptions: []string{
			"names consist of letters, digits and - < > ? /, and have no <-> in them; names made of other characters have an alias",
			"the domain of a project and native library paths are not names of vxlisp",
			"elements of lists that are not built from names in the same evaluation are not followed",
		},
		run: checkC19,
	})
}

// the characters of names that are not allowed in identifiers
const nameMarks = "-<>?/"

// definitionNames are the fields that hold a name, by the struct they belong to.
var nameFieldNames = map[string]bool{"name": true, "alias": true, "pkgname": true, "argname": true}

// nameOf says whether a hole is the name of a definition, argument or package: its kind, the
// condition under which it is, what was done to it before, and whether it is only a part between
// separators.
func (in *interp) nameOf(s *sym, depth int) (kind string, c bdd, pre []op, part bool, ok bool) {
	if depth > 6 {
		return
	}
	switch s.kind {
	case "field":
		b, isSym := s.base.(*sym)
		if !isSym || b.typ == nil {
			return
		}
		n, isNamed := deref(b.typ).(*types.Named)
		if !isNamed {
			return
		}
		st, isStruct := n.Underlying().(*types.Struct)
		if !isStruct {
			return
		}
		has := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), types.Typ[types.String]) {
				has[st.Field(i).Name()] = true
			}
		}
		switch {
		case s.name == "path" && has["lang"] && has["path"]:
			if l := in.siblingText(s, "lang"); l != nil {
				return "package", in.isEmpty(l), nil, false, true
			}
		case !nameFieldNames[s.name]:
		case s.name == "pkgname":
			return "package", bTrue, nil, false, true
		case s.name == "argname":
			return "argument", bTrue, nil, false, true
		case has["alias"] && has["name"]:
			return definitionKind(n), bTrue, nil, false, true
		case s.name == "name" && has["code"]:
			return "argument", bTrue, nil, false, true
		}
	case "mapkey":
		if m, isSym := s.base.(*sym); isSym && m.typ != nil {
			if mt, isMap := m.typ.Underlying().(*types.Map); isMap {
				e := mt.Elem()
				if sl, isSlice := e.Underlying().(*types.Slice); isSlice {
					e = sl.Elem()
				}
				if n, isNamed := deref(e).(*types.Named); isNamed {
					if st, isStruct := n.Underlying().(*types.Struct); isStruct && hasField(st, "alias") {
						return definitionKind(n), bTrue, nil, false, true
					}
				}
			}
		}
	case "elem", "index", "slice":
		if k, c, pre, ok := in.nameIn(s.base, depth+1); ok {
			return k, c, pre, true, true
		}
	}
	return
}

func hasField(st *types.Struct, name string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func definitionKind(n *types.Named) string {
	st := n.Underlying().(*types.Struct)
	switch {
	case hasField(st, "listlib"):
		return "package"
	case hasField(st, "listarg"):
		return "function"
	case hasField(st, "properties"), hasField(st, "allowtypes"):
		return "type"
	}
	if k := strings.TrimPrefix(n.Obj().Name(), "vx"); k != "arg" {
		return k
	}
	return "argument"
}

// nameIn looks for the name a list of parts was made from.
func (in *interp) nameIn(v value, depth int) (string, bdd, []op, bool) {
	if depth > 9 {
		return "", bFalse, nil, false
	}
	switch v := v.(type) {
	case *rope:
		switch v.kind {
		case rHole:
			if k, c, pre, _, ok := in.nameOf(v.sym, depth+1); ok {
				return k, c, append(append([]op{}, pre...), v.ops...), true
			}
			if v.sym.kind == "text" && len(v.sym.args) > 0 {
				if k, c, pre, ok := in.nameIn(v.sym.args[0], depth+1); ok {
					return k, c, append(append([]op{}, pre...), v.ops...), true
				}
			}
		case rCat:
			for _, p := range v.parts {
				if k, c, pre, ok := in.nameIn(p, depth+1); ok {
					return k, c, pre, ok
				}
			}
		case rIf:
			if k, c, pre, ok := in.nameIn(v.a, depth+1); ok {
				return k, in.bd.and(c, v.c), pre, ok
			}
			if k, c, pre, ok := in.nameIn(v.b, depth+1); ok {
				return k, in.bd.and(c, in.bd.not(v.c)), pre, ok
			}
		}
	case *sym:
		if v.kind == "call" && strings.HasPrefix(v.k, "call:strings.") || strings.HasPrefix(v.k, "listset(") {
			for _, a := range v.args {
				if k, c, pre, ok := in.nameIn(a, depth+1); ok {
					return k, c, pre, ok
				}
			}
			if v.base != nil {
				return in.nameIn(v.base, depth+1)
			}
		}
	}
	return "", bFalse, nil, false
}

// nameImage tells whether the operations on a name leave a mark in it.
func nameImage(ops []op, part bool) (bad byte, known bool) {
	stages, ok := textStages(ops)
	if !ok {
		return 0, false
	}
	alphabet := "x" + nameMarks
	for _, o := range ops {
		part = part || o.kind == "slice" && strings.Contains(o.a, "LastIndex")
	}
	if part {
		alphabet = strings.ReplaceAll(alphabet, "/", "")
	}
	var found byte
	textChain(stages, alphabet, nil, "", func(m string, s textSym) (string, string) {
		if strings.IndexByte(nameMarks, s.ch()) >= 0 && found == 0 {
			found = s.ch()
		}
		return m, ""
	})
	return found, true
}

// nameSpelling is what the operations make of all short names.
func nameSpelling(ops []op) (string, bool) {
	var out strings.Builder
	marks := []string{"x", "-", "<", ">", "?"}
	var texts []string
	for _, a := range marks {
		texts = append(texts, a)
		for _, b := range marks {
			texts = append(texts, a+b)
			for _, c := range marks {
				texts = append(texts, a+b+c)
			}
		}
	}
	for _, t := range texts {
		if t == "<->" {
			continue // two arrows in one, which no name has
		}
		for _, o := range ops {
			switch o.kind {
			case "replace":
				if o.by == nil {
					t = strings.ReplaceAll(t, o.a, o.b)
				} else if strings.Contains(t, o.a) {
					return "", false
				}
			case "replacer":
				t = strings.NewReplacer(strings.Split(o.a, "\x01")...).Replace(t)
			case "upper", "lower", "ucfirst", "slice", "trim":
			default:
				return "", false
			}
		}
		out.WriteString(t + "\n")
	}
	return out.String(), true
}

func checkC19(r *repo, x *result) {
	x.rule("identifier", "a name in the code of a generated file has no characters left that identifiers do not allow")
	x.rule("agree", "names of one kind are translated in the same way wherever they are in code")
	x.rule("text", "a name in a string literal keeps its spelling")
	plain, _ := nameSpelling(nil)
	type spelled struct{ at, text string }
	r.eachRun(x, codeCommands, func(g *genRun) {
		in := g.in
		in.runRoots()
		lang := strings.TrimPrefix(g.lang, ":")
		lx := newLexer(in, lang)
		lx.flat = true
		places := map[string]int{}
		spell := map[string]map[string][]spelled{}
		images := map[string]byte{}
		wrong := map[string]bool{}
		lx.followTexts(map[string][]textEnd{}, nil)
		texts := lx.onText
		lx.onText = func(h *rope, mode string, at holeAt) []lexCase {
			m := flush(mode)
			if m != "code" && !strings.HasPrefix(m, "dq") && m != "tdq" {
				return texts(h, mode, at)
			}
			kind, c, pre, part, ok := in.nameOf(h.sym, 0)
			if !ok || c == bFalse {
				return texts(h, mode, at)
			}
			// what is included is a path
			if at.before != nil && strings.HasSuffix(strings.TrimRight(at.before.s, " "), "#include") {
				return nil
			}
			all := append(append([]op{}, pre...), h.ops...)
			if m != "code" {
				if h.sym.name == "alias" {
					return nil
				}
				x.oblige("text")
				if t, ok := nameSpelling(all); ok && t != plain {
					f := r.funcAt(at.pos())
					x.fail("text", kind+" name in "+f, r.pos(at.pos()), "the name of a %s is changed in a string literal of %s %s: %s after %s", kind, g.code, g.lang, in.symText(h.sym), short(opsShow(all), 300))
				}
				return nil
			}
			places[kind]++
			key := fmt.Sprint(part, opsKey(all))
			bad, seen := images[key]
			if !seen {
				if b, known := nameImage(all, part); known {
					bad = b
				}
				images[key] = bad
			}
			if bad == 0 {
				if t, ok := nameSpelling(all); ok {
					if spell[kind] == nil {
						spell[kind] = map[string][]spelled{}
					}
					f := r.funcAt(at.pos())
					spell[kind][t] = append(spell[kind][t], spelled{f, in.symText(h.sym) + " after " + opsShow(all)})
				}
				return nil
			}
			// one of a few known names is as good as its spelling
			for k := 0; k <= len(h.ops); k++ {
				c = in.bd.and(c, in.otherText(in.rs.hole(h.sym, h.ops[:k])))
			}
			if c == bFalse {
				return nil
			}
			// enough is known when names are wrong in many places
			if id := fmt.Sprint(kind, at.pos()); !wrong[id] {
				if len(wrong) >= 8 {
					return nil
				}
				wrong[id] = true
			}
			e := lexEff{err: fmt.Sprintf("the name of a %s is put in code with %q left in it: %s", kind, string(bad), short(in.symText(h.sym), 120)), epos: at.positions()}
			return []lexCase{{c, e}, {in.bd.not(c), lexEff{mode: m}}}
		}
		look := func(what string, pc bdd, t *rope) {
			x.oblige("identifier")
			for _, c := range lx.run(t, "code") {
				if !strings.Contains(c.e.err, " is put in code with ") {
					continue
				}
				cc := in.bd.and(c.c, pc)
				if cc == bFalse || in.bd.expand(cc) == bFalse {
					continue
				}
				f, pos := "?", "-"
				if len(c.e.epos) > 0 {
					f, pos = r.funcAt(c.e.epos[0]), r.pos(c.e.epos[0])
				}
				x.fail("identifier", c.e.err+" in "+f, pos, "%s, in %s of %s %s, for example when %s",
					c.e.err, what, g.code, g.lang, short(in.bd.show(cc), 600))
			}
		}
		for _, s := range in.sinks {
			look("file "+in.pathEnd(s.path), s.pc, s.text)
		}
		for _, rt := range in.rootRes {
			for _, v := range rt.vs {
				if t, ok := v.(*rope); ok {
					look("the result of "+rt.fn.Name(), bTrue, t)
				}
			}
		}
		for kind, by := range spell {
			x.oblige("agree")
			var texts []string
			for t := range by {
				texts = append(texts, t)
			}
			sort.Slice(texts, func(i, j int) bool {
				if len(by[texts[i]]) != len(by[texts[j]]) {
					return len(by[texts[i]]) > len(by[texts[j]])
				}
				return texts[i] < texts[j]
			})
			x.sample("agree", fmt.Sprintf("%s %s: %d places of %s names, for example %s", g.code, g.lang, places[kind], kind, short(by[texts[0]][0].text, 200)))
			for _, t := range texts[1:] {
				seen := map[string]bool{}
				for _, s := range by[t] {
					if seen[s.at] {
						continue
					}
					seen[s.at] = true
					x.fail("agree", kind+" name in "+s.at, "-", "%s names are translated in two ways in %s %s: %s, and elsewhere %s", kind, g.code, g.lang, short(s.text, 300), short(by[texts[0]][0].text, 300))
				}
			}
		}
		for k, n := range places {
			x.analysed["places of "+k+" names in code"] += n
		}
	})
	x.atLeast("agree", 20)
	x.atLeast("text", 20)
	x.atLeast("identifier", 24)
}

// otherText is the condition that a text is none of those it is compared with that are spelled
// without marks.
func (in *interp) otherText(h *rope) bdd {
	v, ok := in.bd.varOf[h.sym.k+opsKey(h.ops)]
	if !ok {
		return bTrue
	}
	g := in.bd.vars[v]
	out := bTrue
	var cs []int
	for k, c := range in.bd.cOf {
		t, ok := strings.CutPrefix(k, g+"\x00"+g+"==")
		if ok && !strings.ContainsAny(t, nameMarks) {
			cs = append(cs, c)
		}
	}
	sort.Ints(cs)
	for _, c := range cs {
		out = in.bd.and(out, in.bd.not(in.bd.node(v, []int{c}, []bdd{bTrue}, bFalse)))
	}
	return out
}
