package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register(&check{
		id:        "C18",
		technique: "string-shape dataflow analysis: every place of a function's name in the code of a generated file is found, and the identifier it is part of has to have the overload number of the same function",
		assumptions: []string{
			"overload numbers are not negative; the first overload has number 0 and may go without it",
		},
		run: checkC18,
	})
}

// overloadOf gives the struct of the function a name belongs to and its overload number.
func (in *interp) overloadOf(s *sym) (*sym, *num) {
	if s.kind != "field" {
		return nil, nil
	}
	b, ok := s.base.(*sym)
	if !ok || b.typ == nil {
		return nil, nil
	}
	n, ok := deref(b.typ).(*types.Named)
	if !ok {
		return nil, nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || definitionKind(n) != "function" {
		return nil, nil
	}
	var idx *types.Var
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.Typ[types.Int]) {
			if idx != nil {
				return nil, nil
			}
			idx = st.Field(i)
		}
	}
	if idx == nil {
		return nil, nil
	}
	v, _ := in.field(nil, b, idx).(*num)
	return b, v
}

// overloaded is the condition that a number is not the first one, however it is tested.
func (in *interp) overloaded(n *num) bdd {
	zero, one := in.num(0), in.num(1)
	return in.bd.and(in.less(zero, n), in.bd.and(in.bd.not(in.less(n, one)), in.bd.not(in.eq(n, zero))))
}

func checkC18(r *repo, x *result) {
	x.rule("numbered", "the identifier made from the name of a function, and the literal that is the key for such an identifier, includes the overload number of that function")
	r.eachRun(x, codeCommands, func(g *genRun) {
		in := g.in
		in.runRoots()
		lang := strings.TrimPrefix(g.lang, ":")
		lx := newLexer(in, lang)
		lx.flat = true
		lx.followTexts(map[string][]textEnd{}, nil)
		texts := lx.onText
		type place struct {
			fn  *sym
			idx *num
			sym *sym
			pos []token.Pos
		}
		places := map[string]*place{}
		nameOf := func(h *rope) (*sym, *num) {
			kind, c, _, _, ok := in.nameOf(h.sym, 0)
			if !ok || c == bFalse || kind != "function" {
				return nil, nil
			}
			return in.overloadOf(h.sym)
		}
		lx.onText = func(h *rope, mode string, at holeAt) []lexCase {
			m := flush(mode)
			if m != "code" && m != "dq" {
				return texts(h, mode, at)
			}
			fn, idx := nameOf(h)
			if idx == nil || idx.isc {
				return texts(h, mode, at)
			}
			k := m + markMode + "name " + fmt.Sprint(fn.k, " ", int(at.pos()))
			if places[k] == nil {
				places[k] = &place{fn, idx, h.sym, at.positions()}
			}
			return []lexCase{{bTrue, lexEff{mode: k}}}
		}
		number := func(h *rope) *num {
			if h.kind == rHole && h.sym.kind == "itoa" && len(h.sym.args) == 1 {
				n, _ := h.sym.args[0].(*num)
				return n
			}
			return nil
		}
		wrong := func(p *place, msg string, rest lexEff) []lexCase {
			c := in.overloaded(p.idx)
			e := lexEff{err: msg + ": " + short(in.symText(p.sym), 120), epos: p.pos}
			return []lexCase{{c, e}, {in.bd.not(c), rest}}
		}
		const ident = "_0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
		lx.onMark = func(h *rope, mode string) []lexCase {
			m, what, _ := strings.Cut(mode, markMode)
			keep := []lexCase{{bTrue, lexEff{mode: mode}}}
			if k, ok := strings.CutPrefix(what, "entry "); ok {
				// in code behind a literal with a name in it
				switch {
				case h.kind == rConst:
					if strings.ContainsAny(h.s, "\n;\"'") {
						return nil
					}
				case h.kind == rHole:
					p := places["dq"+markMode+k]
					if fn, _ := nameOf(h); fn == p.fn {
						return wrong(p, "the name of a function is the key of an entry without its overload number", lexEff{mode: m})
					}
				}
				return keep
			}
			p := places[mode]
			if h.kind == rConst {
				rest := strings.TrimLeft(h.s, ident)
				switch {
				case rest == "":
					return keep
				case m == "code":
					return wrong(p, "the name of a function is used without its overload number", lx.text(rest, m))
				case rest == h.s && rest[0] == '"':
					if strings.ContainsAny(rest[1:], "\n;\"'") {
						return nil
					}
					return []lexCase{{bTrue, lexEff{mode: "code" + markMode + "entry " + what}}}
				}
				return nil
			}
			if n := number(h); n != nil {
				if n.key() == p.idx.key() {
					return []lexCase{{bTrue, lexEff{mode: m}}}
				}
				if m == "code" {
					return wrong(p, "the name of a function is followed by another number than its own", lexEff{mode: m})
				}
				return nil
			}
			if m == "code" {
				return keep
			}
			return nil
		}
		look := func(what string, pc bdd, t *rope) {
			for _, c := range lx.run(t, "code") {
				if !strings.HasPrefix(c.e.err, "the name of a function") {
					continue
				}
				cc := in.bd.and(c.c, pc)
				if cc == bFalse || in.bd.expand(cc) == bFalse {
					continue
				}
				f, pos := "?", "-"
				if len(c.e.epos) > 0 {
					f, pos = r.funcAt(c.e.epos[0]), r.pos(c.e.epos[0])
				}
				x.fail("numbered", c.e.err+" in "+f, pos, "%s, in %s of %s %s, for example when %s",
					c.e.err, what, g.code, g.lang, short(in.bd.show(cc), 600))
			}
		}
		for _, s := range in.sinks {
			look("file "+in.pathEnd(s.path), s.pc, s.text)
		}
		for _, rt := range in.rootRes {
			for _, v := range rt.vs {
				if t, ok := v.(*rope); ok {
					look("the result of "+rt.fn.Name(), bTrue, t)
				}
			}
		}
		var keys []string
		for k := range places {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			x.oblige("numbered")
			p := places[k]
			if len(p.pos) > 0 {
				x.sample("numbered", fmt.Sprintf("%s %s: %s in %s", g.code, g.lang, short(in.symText(p.sym), 100), r.funcAt(p.pos[0])))
			}
		}
	})
	x.atLeast("numbered", 40)
}
