package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register(&check{
		id:        "C06",
		technique: "string-shape dataflow analysis: the text of every generated file is computed as a grammar over the source and a lexer of the output language is run over the grammar",
		assumptions: []string{
			"texts that come from vxlisp source or the native tables are balanced by themselves",
			"a generated text that is cut or changed at a place that is not known is followed as if it were unchanged",
			"conditions are followed as equalities and presence tests of the same value; other tests are independent of each other",
		},
		run: checkC06,
	})
}

// the commands that write generated code
var codeCommands = []string{":source", ":test"}

func checkC06(r *repo, x *result) {
	x.rule("file", "in every generated file each bracket, string, character literal and comment that is opened is closed by its counterpart, whatever definitions are generated")
	x.rule("part", "the same holds for the text of every function that generates parts recursively")
	x.rule("language", "every output language has files for both commands")
	r.eachRun(x, codeCommands, func(g *genRun) {
		in := g.in
		in.runRoots()
		lx := newLexer(in, strings.TrimPrefix(g.lang, ":"))
		lx.followTexts(map[string][]textEnd{}, nil)
		texts := 0
		look := func(rule, what string, pc bdd, t *rope) {
			x.oblige(rule)
			if t.kind != rConst && t.kind != rHole {
				texts++
			}
			for _, c := range lx.run(t, "code") {
				if c.e.err == "" && flush(c.e.mode) == "code" && len(c.e.pops)+len(c.e.pushes) == 0 {
					continue
				}
				cc := in.bd.and(c.c, pc)
				if cc == bFalse || in.bd.expand(cc) == bFalse {
					continue
				}
				msg, at := c.e.err, c.e.epos
				if msg == "" {
					if m := flush(c.e.mode); m != "code" {
						msg = "the text ends inside a " + modeName(m)
					}
					for _, s := range c.e.pops {
						msg, at = s.show()+" closes nothing", append(at, s.pos)
						break
					}
					for _, s := range c.e.pushes {
						msg, at = s.show()+" is not closed", append(at, s.pos)
						break
					}
				}
				if len(at) == 0 {
					at = lx.firstPos(t)
				}
				var fs []string
				for _, p := range at {
					if f := r.funcAt(p); f != "" {
						fs = append(fs, f)
					}
				}
				pos := "-"
				var ps []string
				for _, p := range at {
					ps = append(ps, r.pos(p))
				}
				if len(ps) > 0 {
					pos = ps[0]
				}
				x.fail(rule, msg+" in "+strings.Join(fs, " and "), pos, "%s (%s) in %s of %s %s, for example when %s",
					msg, strings.Join(ps, ", "), what, g.code, g.lang, short(in.bd.show(cc), 600))
			}
		}
		for _, s := range in.sinks {
			look("file", "file "+in.pathEnd(s.path), s.pc, s.text)
		}
		for _, rt := range in.rootRes {
			for _, v := range rt.vs {
				if t, ok := v.(*rope); ok {
					look("part", "the result of "+rt.fn.Name(), bTrue, t)
				}
			}
		}
		if texts == 0 {
			x.fail("language", g.code+" "+g.lang, "-", "no generated text was found for %s %s", g.code, g.lang)
		}
		x.oblige("language")
		x.analysed["parts of text and lexer states"] += len(lx.memo)
		x.analysed["texts followed although cut"] += len(lx.cuts)
		x.analysed["conditions"] += len(in.bd.vars)
	})
	x.atLeast("file", 24)
	x.atLeast("part", 20)
}

func modeName(m string) string {
	switch {
	case strings.HasPrefix(m, "line"), strings.HasPrefix(m, "block"):
		return "comment"
	case strings.HasPrefix(m, "sq"):
		return "character literal"
	}
	return "string literal"
}

// eachRun evaluates the compiler for every output language and the given commands.
func (r *repo) eachRun(x *result, codes []string, use func(g *genRun)) {
	langs, table := newInterp(r).languages()
	var names []string
	for l := range langs {
		names = append(names, l)
	}
	sort.Strings(names)
	if len(names) < 2 {
		x.fail("vacuous", "languages", "-", "no table of output languages was found")
	}
	for _, l := range names {
		for _, c := range codes {
			g, err := r.genRun(c, l)
			if err != nil {
				x.fail("vacuous", "commands", "-", "%v", err)
				return
			}
			x.analysed["evaluations of functions"] += len(g.in.evals)
			x.analysed["texts"] += len(g.in.rs.all)
			if g.in.steps > g.in.maxStep {
				x.notes = append(x.notes, fmt.Sprintf("%s %s: not all calls were followed", c, l))
			}
			x.sample("language", fmt.Sprintf("%s %s (%s): %d writes, %d recursive generators", c, l, table, len(g.in.sinks), len(g.in.roots)))
			use(g)
		}
	}
}

// funcAt is the name of the function around a position.
func (r *repo) funcAt(p token.Pos) string {
	for _, f := range r.vx.Syntax {
		if p < f.FileStart || p > f.FileEnd {
			continue
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Pos() <= p && p <= fd.End() {
				return fd.Name.Name
			}
		}
	}
	return ""
}

type rootResult struct {
	fn *types.Func
	vs []value
}

// runRoots evaluates the functions at which recursion was cut, on their own.
func (in *interp) runRoots() {
	for i := 0; i < len(in.roots) && i < 300; i++ {
		rt := in.roots[i]
		args := rt.args
		var recv value
		if rt.fn.Type().(*types.Signature).Recv() != nil {
			recv, args = args[0], args[1:]
		}
		vs := in.call(nil, rt.fn, recv, args, 0)
		in.rootRes = append(in.rootRes, rootResult{rt.fn, vs})
	}
}

// pathEnd is the constant end of a path.
func (in *interp) pathEnd(v value) string {
	switch v := v.(type) {
	case *rope:
		if s, ok := constText(v); ok {
			return s
		}
		if v.kind == rCat {
			end := ""
			for i := len(v.parts) - 1; i >= 0; i-- {
				if v.parts[i].kind != rConst {
					return "…" + end
				}
				end = v.parts[i].s + end
			}
		}
		return "…"
	case *sym:
		for _, a := range v.args {
			return in.pathEnd(a)
		}
	}
	return "?"
}
