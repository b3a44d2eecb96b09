package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{
		id:        "C12",
		technique: "effect analysis over the call graph and must-provenance of every path handed to a write",
		assumptions: []string{
			"the effects of the standard library are those of the listed functions of os, io, path/filepath and net/http",
			"package and file names appended to a command path are not checked for parent references",
		},
		run: checkC12,
	})
}

// what the standard library functions do to the outside world
var fsWrites = map[string]int{ // index of the path argument
	"os.Create": 0, "os.OpenFile": 0, "os.WriteFile": 0, "os.Mkdir": 0, "os.MkdirAll": 0, "os.MkdirTemp": 0,
	"os.CreateTemp": 0, "os.Symlink": 1, "os.Chmod": 0, "os.Chtimes": 0, "os.CopyFS": 0,
	"io/ioutil.WriteFile": 0, "io/ioutil.TempDir": 0, "io/ioutil.TempFile": 0,
}

var fsForbidden = map[string]bool{
	"os.Remove": true, "os.RemoveAll": true, "os.Rename": true, "os.Truncate": true, "os.Link": true,
	"os.Chown": true, "os.Lchown": true, "os.Chdir": true, "os.StartProcess": true, "os.Setenv": true,
	"os.FindProcess": true, "os.Unsetenv": true, "os.Clearenv": true, "(*os.File).Truncate": true, "(*os.File).Chown": true,
	"(*os.File).Chdir": true, "(*os.Process).Kill": true, "(*os.Process).Signal": true,
	"net/http.Get": true, "net/http.Post": true, "net/http.PostForm": true, "net/http.Head": true,
	"net/http.ServeFile": true, "net/http.ServeFileFS": true,
}

func forbiddenEffect(name string) bool {
	if fsForbidden[name] {
		return true
	}
	for _, p := range []string{"os/exec.", "(*os/exec.", "syscall.", "plugin.", "net.", "(*net.", "(*net/http.Client).", "net/rpc.", "net/smtp."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

type paths struct {
	r       *repo
	running map[*ssa.Function]*ssa.Function
	project types.Type
	command types.Type
	params  map[*ssa.Parameter]int
	fields  map[*types.Var]int
	why     string
}

// how a path relates to the path of the command being run
const (
	pathBelow  = 0 // the command path or something below it
	pathBeside = 1 // a parent folder of it, or something below that
	pathOther  = 2
)

func checkC12(r *repo, x *result) {
	x.rule("forbidden", "no reachable function deletes, renames, executes, changes directory, environment or ownership, or opens connections")
	x.rule("readonly", "no write is reachable from reading, linking and validating a project, nor from any function that returns generated text")
	x.rule("path", "every path handed to a write starts with the path of the command being run; the build log is the only other file")
	x.rule("complete", "every generated file is opened truncating and receives exactly its generated text, unless the file already holds that text")
	x.rule("serve", "the web server serves the folder of its command and nothing else")
	running := r.reach(r.spkgs[r.main].Func("main"))
	p := &paths{r: r, running: running, params: map[*ssa.Parameter]int{}, fields: map[*types.Var]int{}}
	p.project, p.command = r.typ("vxproject"), r.typ("vxcommand")
	if p.project == nil || p.command == nil || r.typ("vxfile") == nil {
		x.fail("path", "types", "-", "the project, command or file type is gone")
		return
	}
	writers := map[*ssa.Function]bool{} // functions that contain or reach a write
	for _, f := range r.funcs {
		if _, ok := running[f]; !ok {
			continue
		}
		x.analysed["functions"]++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cv, ok := in.(*ssa.ChangeType); ok && cv.Type().String() == "net/http.Dir" {
					x.oblige("serve")
					if k, why := p.provenance(cv.X); k != pathBelow {
						x.fail("serve", fname(f), r.pos(in.Pos()), "%s serves a folder that is not the path of its command: %s", fname(f), why)
					} else {
						x.sample("serve", fname(f)+" serves the path of its command")
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := calleeName(c)
				if i := strings.Index(name, "["); i > 0 {
					name = name[:i]
				}
				if s := c.Common().StaticCallee(); s != nil && !r.inModule(s) {
					x.oblige("forbidden")
					if forbiddenEffect(name) {
						x.fail("forbidden", fname(f)+" calls "+name, r.pos(c.Pos()), "%s calls %s, reached by %s", fname(f), name, reachPath(running, f))
					}
				}
				idx, ok := fsWrites[name]
				if !ok {
					continue
				}
				writers[f] = true
				c12Path(r, x, p, f, c, name, idx)
			}
		}
	}
	c12ReadOnly(r, x, running, writers)
	c12Complete(r, x, running)
	x.atLeast("forbidden", 20)
	x.atLeast("path", 5)
	x.atLeast("readonly", 300)
	x.atLeast("serve", 1)
	x.atLeast("complete", 2)
}

func isLogPath(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return false
	}
	return constant.StringVal(c.Value) == "build.log"
}

func c12Path(r *repo, x *result, p *paths, f *ssa.Function, c ssa.CallInstruction, name string, idx int) {
	x.oblige("path")
	arg := c.Common().Args[idx]
	if isLogPath(arg) {
		x.sample("path", fname(f)+" creates the build log")
		return
	}
	k, why := p.provenance(arg)
	if k == pathOther {
		x.fail("path", fname(f)+" "+name, r.pos(c.Pos()), "%s writes with %s to a path that does not start with the path of the command: %s", fname(f), name, why)
		return
	}
	x.sample("path", fname(f)+" writes with "+name+" below the command path")
}

// provenance says how the path v relates to the command path, in the worst case over all callers.
func (p *paths) provenance(v ssa.Value) (int, string) {
	p.why = ""
	k := p.value(v, nil, 0)
	return k, p.why
}

type frame struct {
	call *ssa.Call
	up   *frame
}

func (p *paths) other(v ssa.Value, text string) int {
	if p.why == "" {
		where := ""
		if in, ok := v.(ssa.Instruction); ok {
			where = " in " + fname(in.Parent()) + " at " + p.r.pos(in.Pos())
		}
		p.why = text + where
	}
	return pathOther
}

func (p *paths) isLoad(v ssa.Value, owner types.Type, field string) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldName(fa) != field {
		return false
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	return ok && types.Identical(pt.Elem(), owner)
}

func (p *paths) value(v ssa.Value, fr *frame, depth int) int {
	if depth > 60 {
		return p.other(v, "a path too long to follow")
	}
	switch a := v.(type) {
	case *ssa.Const:
		return p.other(v, "the constant "+a.Value.String())
	case *ssa.Phi:
		k := 0
		for i, e := range a.Edges {
			// loop-carried growth is judged by its start
			if isPhiOf(e, a, 0) {
				continue
			}
			_ = i
			k = max(k, p.value(e, fr, depth+1))
		}
		return k
	case *ssa.BinOp:
		if a.Op == token.ADD {
			if parentRef(a.Y) {
				return p.other(v, "a parent reference is appended")
			}
			return p.value(a.X, fr, depth+1)
		}
	case *ssa.Slice:
		if a.Low == nil || isZero(a.Low) {
			return max(pathBeside, p.value(a.X, fr, depth+1))
		}
	case *ssa.UnOp:
		if a.Op != token.MUL {
			break
		}
		switch ad := a.X.(type) {
		case *ssa.FieldAddr:
			fv := fieldVar(ad.X.Type(), ad.Field)
			owner := ad.X.Type().Underlying().(*types.Pointer).Elem()
			if fv != nil && types.Identical(owner, p.r.typ("vxfile")) {
				return p.field(fv, depth)
			}
			return p.other(v, "the field "+fieldName(ad))
		case *ssa.Alloc, *ssa.FreeVar:
			return p.cell(ad, fr, depth)
		case *ssa.Global:
			return p.other(v, "the package variable "+ad.Name())
		case *ssa.IndexAddr:
			return p.other(v, "an element of a list")
		}
	case *ssa.Parameter:
		return p.param(a, fr, depth)
	case *ssa.Extract:
		if c, ok := a.Tuple.(*ssa.Call); ok {
			return p.call(c, a.Index, fr, depth)
		}
	case *ssa.Call:
		return p.call(a, 0, fr, depth)
	}
	return p.other(v, "an expression that is not a path of the command")
}

func isPhiOf(v ssa.Value, phi *ssa.Phi, depth int) bool {
	if v == phi {
		return true
	}
	if depth > 10 {
		return false
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && !parentRef(b.Y) {
		return isPhiOf(b.X, phi, depth+1)
	}
	return false
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.String() == "0"
}

func parentRef(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.String && strings.Contains(constant.StringVal(c.Value), "..")
}

// cell: a local variable, possibly captured by a closure.
func (p *paths) cell(addr ssa.Value, fr *frame, depth int) int {
	k, n := 0, 0
	visit := func(refs *[]ssa.Instruction, cell ssa.Value) {
		for _, ref := range *refs {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == cell {
				n++
				k = max(k, p.value(st.Val, fr, depth+1))
			}
		}
	}
	if fv, ok := addr.(*ssa.FreeVar); ok {
		fn := fv.Parent()
		for i, q := range fn.FreeVars {
			if q != fv {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						n++
						if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
							k = max(k, p.cell(al, nil, depth+1))
						} else {
							k = max(k, p.value(mc.Bindings[i], nil, depth+1))
						}
					}
				}
			}
		}
		visit(fv.Referrers(), fv)
	} else if al, ok := addr.(*ssa.Alloc); ok {
		visit(al.Referrers(), al)
	}
	if n == 0 {
		return p.other(addr, "a variable that is never set")
	}
	return k
}

func (p *paths) param(a *ssa.Parameter, fr *frame, depth int) int {
	idx := -1
	for i, q := range a.Parent().Params {
		if q == a {
			idx = i
		}
	}
	for g := fr; g != nil; g = g.up {
		if g.call.Call.StaticCallee() == a.Parent() && idx < len(g.call.Call.Args) {
			return p.value(g.call.Call.Args[idx], g.up, depth+1)
		}
	}
	if k, ok := p.params[a]; ok {
		return k
	}
	p.params[a] = pathBelow // assumed for recursive calls
	k, n := 0, 0
	for _, c := range p.r.callers(a.Parent()) {
		if _, ok := p.running[c.Parent()]; !ok {
			continue
		}
		n++
		k = max(k, p.value(c.Common().Args[idx], nil, depth+1))
	}
	if n == 0 {
		k = p.other(a, "the argument "+a.Name()+" of "+fname(a.Parent())+", whose calls are not known")
	}
	p.params[a] = k
	return k
}

func (p *paths) field(fv *types.Var, depth int) int {
	if k, ok := p.fields[fv]; ok {
		return k
	}
	p.fields[fv] = pathBelow
	k, n := 0, 0
	for _, f := range p.r.funcs {
		if _, ok := p.running[f]; !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldVar(fa.X.Type(), fa.Field) != fv {
					continue
				}
				n++
				v := p.value(st.Val, nil, depth+1)
				if v == pathBeside {
					v = p.other(st.Addr, "a generated file is placed beside the command path")
				}
				k = max(k, v)
			}
		}
	}
	if n == 0 {
		return p.other(nil, "a field that is never set")
	}
	p.fields[fv] = k
	return k
}

func (p *paths) call(c *ssa.Call, res int, fr *frame, depth int) int {
	proj, cmd := false, false
	for _, a := range c.Call.Args {
		proj = proj || p.isLoad(a, p.project, "path")
		cmd = cmd || p.isLoad(a, p.command, "path")
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return p.other(c, "a dynamic call")
	}
	if proj && cmd && p.r.inModule(g) {
		return pathBelow // the command path resolved against the project
	}
	if !p.r.inModule(g) {
		switch calleeName(c) {
		case "strings.ReplaceAll", "strings.Replace", "strings.TrimSuffix", "strings.TrimRight", "strings.TrimSpace",
			"path/filepath.Clean", "path/filepath.ToSlash", "path/filepath.FromSlash", "path.Clean", "strings.Clone":
			return p.value(c.Call.Args[0], fr, depth+1)
		case "path/filepath.Dir", "path.Dir":
			return max(pathBeside, p.value(c.Call.Args[0], fr, depth+1))
		case "path/filepath.Join", "path.Join", "fmt.Sprint":
			if sl, ok := c.Call.Args[0].(*ssa.Slice); ok {
				if first := sliceElem(sl, 0); first != nil {
					return p.value(first, fr, depth+1)
				}
			}
		}
		return p.other(c, "the result of "+calleeName(c))
	}
	if depth > 40 {
		return p.other(c, "calls nested too deeply")
	}
	k, n := 0, 0
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(ret.Results) {
			n++
			k = max(k, p.value(ret.Results[res], &frame{c, fr}, depth+1))
		}
	}
	if n == 0 {
		return p.other(c, "a call that does not return")
	}
	return k
}

// sliceElem is the i-th element of a slice literal.
func sliceElem(sl *ssa.Slice, i int64) ssa.Value {
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ix, ok := ia.Index.(*ssa.Const)
		if !ok || ix.Int64() != i {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				return st.Val
			}
		}
	}
	return nil
}

// c12ReadOnly: writers are not reachable from the reading stages nor from functions that return text.
func c12ReadOnly(r *repo, x *result, running map[*ssa.Function]*ssa.Function, writers map[*ssa.Function]bool) {
	reaches := func(f *ssa.Function) (string, bool) {
		from := r.reach(f)
		for w := range writers {
			if _, ok := from[w]; ok {
				return reachPath(from, w), true
			}
		}
		return "", false
	}
	// everything that leads to a write
	leads := map[*ssa.Function]bool{}
	for f := range running {
		if _, ok := reaches(f); ok {
			leads[f] = true
		}
	}
	x.analysed["functions leading to a write"] = len(leads)
	file := r.typ("vxfile")
	text := func(t types.Type) bool {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return true
		}
		if p, ok := elemType(t).(*types.Pointer); ok && types.Identical(p.Elem(), file) {
			return true
		}
		return false
	}
	defs := map[string]bool{"vxtype": true, "vxfunc": true, "vxconst": true, "vxpackage": true, "vxproject": true, "vxarg": true, "vxvalue": true, "vxtextblock": true, "vxcommand": true}
	for f := range running {
		pure := ""
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if text(t) {
				pure = "returns generated text"
			}
			e := elemType(t)
			if _, named := definitionStruct(r, e); defs[named] {
				pure = "returns definitions"
			}
		}
		if pure == "" {
			continue
		}
		x.oblige("readonly")
		if leads[f] {
			path, _ := reaches(f)
			x.fail("readonly", fname(f), r.pos(f.Pos()), "%s %s but writes to the file system: %s", fname(f), pure, path)
		}
	}
}

// c12Complete: the text of a generated file reaches the file unchanged and truncating.
func c12Complete(r *repo, x *result, running map[*ssa.Function]*ssa.Function) {
	file := r.typ("vxfile")
	isText := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fieldName(fa) == "text" && types.Identical(fa.X.Type(), types.NewPointer(file))
	}
	writesText := map[*ssa.Function]int{} // function -> parameter written to a file in full
	for f := range running {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := calleeName(c)
				if name == "os.OpenFile" {
					x.oblige("complete")
					k, ok := c.Common().Args[1].(*ssa.Const)
					if !ok || k.Int64()&0x200 == 0 || k.Int64()&0x400 != 0 {
						x.fail("complete", fname(f)+" opens", r.pos(c.Pos()), "%s opens a file for writing without truncating it", fname(f))
					}
				}
				var arg ssa.Value
				switch name {
				case "(*os.File).WriteString", "(*bufio.Writer).WriteString", "(*os.File).Write", "io.WriteString", "os.WriteFile":
					args := c.Common().Args
					arg = args[1]
				default:
					continue
				}
				x.oblige("complete")
				if cv, ok := arg.(*ssa.Convert); ok {
					arg = cv.X
				}
				if isText(arg) {
					x.sample("complete", fname(f)+" writes the text of the file")
					continue
				}
				p, ok := arg.(*ssa.Parameter)
				if !ok {
					x.fail("complete", fname(f)+" writes", r.pos(c.Pos()), "%s writes something else than the text of the generated file", fname(f))
					continue
				}
				for i, q := range f.Params {
					if q == p {
						writesText[f] = i
					}
				}
			}
		}
	}
	// callers hand the text over unchanged
	for again := true; again; {
		again = false
		for f, idx := range writesText {
			for _, c := range r.callers(f) {
				g := c.Parent()
				if _, ok := running[g]; !ok {
					continue
				}
				arg := c.Common().Args[idx]
				if p, ok := arg.(*ssa.Parameter); ok {
					for i, q := range g.Params {
						if q == p {
							if _, seen := writesText[g]; !seen {
								writesText[g] = i
								again = true
							}
						}
					}
				}
			}
		}
	}
	sinks := map[*ssa.Function]bool{}
	for f, idx := range writesText {
		sinks[f] = true
		for _, c := range r.callers(f) {
			g := c.Parent()
			if _, ok := running[g]; !ok {
				continue
			}
			arg := c.Common().Args[idx]
			if _, ok := arg.(*ssa.Parameter); ok {
				continue
			}
			x.oblige("complete")
			if !isText(arg) {
				x.fail("complete", fname(g)+" writes", r.pos(c.Pos()), "%s writes something else than the text of the generated file", fname(g))
				continue
			}
			x.sample("complete", fname(g)+" hands the unchanged text to "+fname(f))
		}
	}
	// every file of a list is written unless it already holds its text
	for f := range running {
		for _, l := range naturalLoops(f) {
			writes := map[*ssa.BasicBlock]bool{}
			for b := range l.body {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						s := c.Call.StaticCallee()
						if s != nil && sinks[s] && isText(c.Call.Args[writesText[s]]) {
							writes[b] = true
						}
						switch calleeName(c) {
						case "os.WriteFile", "(*os.File).WriteString", "io.WriteString":
							writes[b] = true
						}
					}
				}
			}
			if len(writes) == 0 {
				continue
			}
			x.oblige("complete")
			if b := skipsWrite(l, writes, isText); b != nil {
				x.fail("complete", fname(f)+" skips", r.pos(b.Instrs[0].Pos()), "%s can leave a generated file unwritten although it does not hold its text", fname(f))
			} else {
				x.sample("complete", fname(f)+" writes every file of the list")
			}
		}
	}
}

// skipsWrite looks for an iteration that neither writes nor found the file to hold its text already.
func skipsWrite(l *loop, writes map[*ssa.BasicBlock]bool, isText func(ssa.Value) bool) *ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var bad *ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] || writes[b] || bad != nil {
			return
		}
		seen[b] = true
		for i, s := range b.Succs {
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if cmp, ok := br.Cond.(*ssa.BinOp); ok && types.Identical(cmp.X.Type(), types.Universe.Lookup("error").Type()) {
					if cmp.Op == token.NEQ && i == 0 || cmp.Op == token.EQL && i == 1 {
						continue // the failure is reported (C01)
					}
				}
				if cmp, ok := br.Cond.(*ssa.BinOp); ok && (isText(cmp.X) || isText(cmp.Y)) {
					if cmp.Op == token.EQL && i == 0 || cmp.Op == token.NEQ && i == 1 {
						if cmp.X.Type().Underlying().(*types.Basic).Kind() == types.String && !isConst(cmp.X) && !isConst(cmp.Y) {
							continue
						}
					}
				}
			}
			if s == l.head {
				bad = b
				return
			}
			if !l.body[s] {
				continue
			}
			visit(s)
		}
	}
	for _, s := range l.head.Succs {
		if l.body[s] {
			visit(s)
		}
	}
	return bad
}

func isConst(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}
