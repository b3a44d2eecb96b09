package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

func (in *interp) progress() {
	go func() {
		for {
			time.Sleep(3 * time.Second)
			s := ""
			for _, f := range in.stack {
				if f != nil {
					s += ">" + f.Name()
				}
			}
			mk := 0
			for k := range in.syms {
				if len(k) > mk {
					mk = len(k)
				}
			}
			fmt.Fprintf(os.Stderr, "steps %d ropes %d bdds %d atoms %d loops %d syms %d maxkey %d %s\n", in.steps, len(in.rs.all), len(in.bd.nodes), len(in.bd.vars), len(in.loops), len(in.syms), mk, s)
		}
	}()
}

func (b *bdds) showAll(f bdd) string {
	if f == bTrue {
		return "T"
	}
	if f == bFalse {
		return "F"
	}
	n := b.nodes[f]
	s := "("
	for i, k := range n.kids {
		if k != bFalse {
			s += "[" + b.consts[n.cs[i]] + "]" + b.showAll(k) + " | "
		}
	}
	if n.def != bFalse {
		s += "[else]" + b.showAll(n.def)
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s + ")"
}

func (in *interp) dbgRope(id int) {
	if id > 0 && id < len(in.rs.all) {
		fmt.Println("R", id, short(in.rs.show(in.rs.all[id], 9), 3000))
	}
}

func lexDump(r *repo, args []string) {
	g, err := r.genRun(args[0], args[1])
	if err != nil {
		fmt.Println(err)
		return
	}
	in := g.in
	in.runRoots()
	lx := newLexer(in, strings.TrimPrefix(args[1], ":"))
	lx.debug = os.Getenv("LXD") != ""
	lx.strict = os.Getenv("LXS") != ""
	lx.flat = lx.strict
	lx.followTexts(map[string][]textEnd{}, nil)
	hm := map[string]int{}
	hx := map[string]string{}
	lx.onHole = func(h *rope, mode string, at holeAt) {
		k := mode + " | " + holeName(h.sym) + " | " + opsShow(h.ops)
		hm[k]++
		hx[k] = r.funcAt(at.pos())
		if at.before != nil {
			hx[k] += " " + short(fmt.Sprintf("%q", at.before.s), 60)
		}
	}
	defer func() {
		for k, v := range hm {
			fmt.Println("HOLE", k, "|", v, hx[k])
		}
	}()
	show := func(what string, pc bdd, t *rope) {
		for _, c := range lx.run(t, "code") {
			cc := in.bd.and(c.c, pc)
			if cc == bFalse || in.bd.expand(cc) == bFalse {
				continue
			}
			if c.e.err == "" && flush(c.e.mode) == "code" && len(c.e.pops)+len(c.e.pushes) == 0 {
				continue
			}
			fmt.Println("--", what, c.e.key(), "mode", c.e.mode, "when", in.bd.show(cc))
			for _, p := range c.e.epos {
				fmt.Println("     at", r.fset.Position(p))
			}
			for _, s := range append(c.e.pops, c.e.pushes...) {
				fmt.Println("     ", s.ch, r.fset.Position(s.pos))
			}
		}
	}
	for _, s := range in.sinks {
		show("sink "+in.pathEnd(s.path), s.pc, s.text)
	}
	for _, rt := range in.rootRes {
		for i, v := range rt.vs {
			if t, ok := v.(*rope); ok {
				show(fmt.Sprintf("root %s#%d", rt.fn.Name(), i), bTrue, t)
			}
		}
	}
	for _, a := range args[2:] {
		n := 0
		fmt.Sscan(a, &n)
		in.dbgRope(n)
	}
	fmt.Fprintln(os.Stderr, "sinks", len(in.sinks), "roots", len(in.rootRes), "memo", len(lx.memo), "large", lx.large)
}

func holeName(s *sym) string {
	switch s.kind {
	case "field":
		t := ""
		switch b := s.base.(type) {
		case *sym:
			if b.typ != nil {
				t = deref(b.typ).String()
				t = t[strings.LastIndex(t, ".")+1:]
			}
		default:
			t = fmt.Sprintf("%T", b)
		}
		return t + "." + s.name
	case "rec":
		return "rec " + s.fn.Name()
	}
	return s.kind + " " + short(s.k, 60)
}
