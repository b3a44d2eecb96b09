package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// genRun is the evaluation of the compiler for one kind of command and one output language.
type genRun struct {
	code string
	lang string
	in   *interp
	cmd  *sym
	proj *sym
}

// entryFuncs finds where a command of a project is carried out: the functions with a project and
// a command among their parameters that write files and are not called by such a function.
func (r *repo) entryFuncs(in *interp) []*ssa.Function {
	proj, cmd := r.typ("vxproject"), r.typ("vxcommand")
	if proj == nil || cmd == nil {
		return nil
	}
	has := func(f *ssa.Function) bool {
		p, c := false, false
		for _, v := range f.Params {
			if t, ok := v.Type().(*types.Pointer); ok {
				p = p || types.Identical(t.Elem(), proj)
				c = c || types.Identical(t.Elem(), cmd)
			}
		}
		return p && c
	}
	var out []*ssa.Function
	for _, f := range r.funcs {
		o, _ := f.Object().(*types.Func)
		if o == nil || !has(f) || !in.sinky[o] {
			continue
		}
		top := false
		for _, c := range r.callers(f) {
			if !has(c.Parent()) {
				top = true
			}
		}
		if top {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// languages returns the table from the words of a command to output languages.
func (in *interp) languages() (map[string]*obj, string) {
	lang := in.r.typ("vxlang")
	if lang == nil {
		return nil, ""
	}
	for _, n := range in.r.vx.Types.Scope().Names() {
		v, ok := in.r.vx.Types.Scope().Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		m, ok := v.Type().Underlying().(*types.Map)
		if !ok || !isPtrTo(m.Elem(), lang) {
			continue
		}
		g, ok := in.global(v).(*mapv)
		if !ok {
			continue
		}
		out := map[string]*obj{}
		for _, k := range g.keys {
			if o, ok := g.vals[k].(*obj); ok {
				out[k] = o
			}
		}
		if len(out) > 0 {
			return out, n
		}
	}
	return nil, ""
}

func (r *repo) genRun(code, lang string) (*genRun, error) {
	in := newInterp(r)
	g := &genRun{code: code, lang: lang, in: in}
	if os.Getenv("VXDEBUG") != "" {
		in.progress()
	}
	langs, _ := in.languages()
	if len(langs) == 0 {
		return nil, fmt.Errorf("no table of output languages was found")
	}
	entries := r.entryFuncs(in)
	if len(entries) == 0 {
		return nil, fmt.Errorf("no function that carries out a command was found")
	}
	proj, cmd := r.typ("vxproject"), r.typ("vxcommand")
	pv := in.param("project", types.NewPointer(proj))
	cv := in.param("command", types.NewPointer(cmd))
	g.cmd, g.proj = cv.(*sym), pv.(*sym)
	in.base.set(skey{ref: "command", field: "code"}, in.rs.konst(code, 0))
	in.base.set(skey{ref: "command", field: "langcode"}, in.rs.konst(lang, 0))
	if o := langs[lang]; o != nil {
		in.base.set(skey{ref: "command", field: "lang"}, o)
	} else {
		in.base.set(skey{ref: "command", field: "lang"}, nilv{})
	}
	for _, e := range entries {
		fn := e.Object().(*types.Func)
		var args []value
		for _, p := range e.Params {
			switch {
			case isPtrTo(p.Type(), proj):
				args = append(args, pv)
			case isPtrTo(p.Type(), cmd):
				args = append(args, cv)
			default:
				args = append(args, in.param(p.Name(), p.Type()))
			}
		}
		in.call(nil, fn, nil, args, e.Pos())
	}
	return g, nil
}

func ropeDump(r *repo, args []string) {
	if len(args) < 2 {
		fmt.Println("usage: vxverif rope CODE LANG [DEPTH]")
		return
	}
	start := time.Now()
	g, err := r.genRun(args[0], args[1])
	if err != nil {
		fmt.Println(err)
		return
	}
	in := g.in
	depth := 3
	if len(args) > 2 {
		fmt.Sscan(args[2], &depth)
	}
	fmt.Printf("steps %d ropes %d bdds %d atoms %d funcs %d roots %d time %v\n", in.steps, len(in.rs.all), len(in.bd.nodes), len(in.bd.vars), len(in.evals), len(in.roots), time.Since(start))
	for _, rt := range in.roots {
		fmt.Println("ROOT", rt.key)
	}
	for i, s := range in.sinks {
		fmt.Printf("SINK %d %s path=%s pc=%s loops=%d stack=%s\n", i, r.fset.Position(s.pos), short(in.showValue(s.path), 300), in.bd.show(s.pc), len(s.loops), strings.Join(s.stack, ">"))
		t := in.rs.show(s.text, depth)
		fmt.Fprintln(os.Stdout, "   ", short(t, 60000))
	}
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + " … " + s[len(s)-n/2:]
	}
	return s
}

func (in *interp) showValue(v value) string {
	switch v := v.(type) {
	case *rope:
		return in.rs.show(v, 5)
	case *sym:
		s := v.k
		for _, a := range v.args {
			s += " (" + in.showValue(a) + ")"
		}
		return s
	case nil:
		return "?"
	}
	return v.key()
}
