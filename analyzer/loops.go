package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// loop is a natural loop that walks a slice, array or map.
type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	// over is what is iterated: for slices the value indexed by the induction variable, for maps the
	// ranged value
	over []ssa.Value
	elem []ssa.Value // values that are the current element (or key, value of a map)
	next *ssa.Next   // map or string range
}

// naturalLoops finds the natural loops of f.
func naturalLoops(f *ssa.Function) []*loop {
	byHead := map[*ssa.BasicBlock]*loop{}
	var out []*loop
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHead[s]
				if l == nil {
					l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					byHead[s] = l
					out = append(out, l)
				}
				var work []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[0]
					work = work[1:]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	for _, l := range out {
		l.findElems()
	}
	return out
}

func (l *loop) findElems() {
	var phis []ssa.Value
	for _, in := range l.head.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			if b, ok := phi.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				phis = append(phis, phi)
			}
		}
	}
	ind := map[ssa.Value]bool{}
	for _, p := range phis {
		ind[p] = true
	}
	// values derived from an induction variable by adding a constant
	for i := 0; i < 2; i++ {
		for b := range l.body {
			for _, in := range b.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
					if ind[bo.X] || ind[bo.Y] {
						ind[bo] = true
					}
				}
			}
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if ind[x.Index] {
					l.over = append(l.over, x.X)
					for _, ref := range *x.Referrers() {
						if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
							l.elem = append(l.elem, u)
						}
					}
				}
			case *ssa.Index:
				if ind[x.Index] {
					l.over = append(l.over, x.X)
					l.elem = append(l.elem, x)
				}
			case *ssa.Next:
				if b == l.head || !l.innerHead(b) {
					l.next = x
					if rg, ok := x.Iter.(*ssa.Range); ok {
						l.over = append(l.over, rg.X)
					}
					for _, ref := range *x.Referrers() {
						if ex, ok := ref.(*ssa.Extract); ok && ex.Index > 0 {
							l.elem = append(l.elem, ex)
						}
					}
				}
			}
		}
	}
}

func (l *loop) innerHead(b *ssa.BasicBlock) bool {
	if b == l.head {
		return false
	}
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// overField says whether the loop walks the named field of some object.
func (l *loop) overField(field string) bool {
	for _, v := range l.over {
		if fieldOfLoad(v) == field {
			return true
		}
	}
	return false
}

// coversField: f has a loop over the field whose every iteration uses the element in what f returns.
func coversField(r *repo, f *ssa.Function, field string) string {
	found := false
	for _, l := range naturalLoops(f) {
		if !l.overField(field) {
			continue
		}
		found = true
		if why := everyIterationContributes(l); why != "" {
			return "the loop over " + field + " at " + r.pos(l.head.Instrs[0].Pos()) + " " + why
		}
	}
	if !found {
		return "no loop over " + field
	}
	return ""
}

// everyIterationContributes: on every path through the body an instruction that uses the element is
// executed whose result is carried to the next iteration, and the loop is only left at its head.
func everyIterationContributes(l *loop) string {
	for b := range l.body {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] {
				return "can be left before the last element"
			}
		}
		if len(b.Succs) == 0 {
			return "can be left before the last element"
		}
	}
	taint := map[ssa.Value]bool{}
	for _, e := range l.elem {
		taint[e] = true
	}
	changed := true
	for changed {
		changed = false
		for b := range l.body {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && taint[st.Val] && !taint[base(st.Addr)] {
					taint[base(st.Addr)] = true
					changed = true
				}
				v, ok := in.(ssa.Value)
				if !ok || taint[v] {
					continue
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var buf [16]*ssa.Value
				for _, op := range in.Operands(buf[:0]) {
					if op != nil && *op != nil && taint[*op] {
						taint[v] = true
						changed = true
						break
					}
				}
			}
		}
	}
	// carried values: phis at the head whose back edge value differs
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, ed := range phi.Edges {
			p := l.head.Preds[i]
			if !l.body[p] {
				continue
			}
			if alwaysTainted(l, ed, taint, map[ssa.Value]bool{}) {
				return ""
			}
		}
	}
	return "does not use every element"
}

func alwaysTainted(l *loop, v ssa.Value, taint, seen map[ssa.Value]bool) bool {
	if taint[v] {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		return x.Op == token.ADD && (alwaysTainted(l, x.X, taint, seen) || alwaysTainted(l, x.Y, taint, seen))
	case *ssa.Phi:
		if x.Block() == l.head || !l.body[x.Block()] {
			return false
		}
		for _, ed := range x.Edges {
			if !alwaysTainted(l, ed, taint, seen) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if alwaysTainted(l, a, taint, seen) {
				return true
			}
		}
	}
	return false
}
