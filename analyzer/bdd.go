package main

import (
	"sort"
	"strconv"
	"strings"
)

// Conditions of the evaluator are kept as reduced ordered decision diagrams, so that two
// conditions that mean the same are the same number. A node asks for the value of one expression
// of the analysed program; it has a branch for each constant the expression is compared with and
// one for all other values.

type bdd int

const (
	bFalse bdd = 0
	bTrue  bdd = 1
)

type bddNode struct {
	v    int   // variable
	cs   []int // constants, ascending
	kids []bdd
	def  bdd
}

type bdds struct {
	nodes  []bddNode
	index  map[string]bdd
	memo   map[[3]bdd]bdd
	vars   []string
	varOf  map[string]int
	consts []string // description of each constant
	cOf    map[string]int
	supp   map[bdd]map[int]bool
	sizes  map[bdd]int
	abs    map[bdd]bdd
	defs   map[int]bdd // what a named condition stands for
}

func newBdds() *bdds {
	return &bdds{
		nodes: []bddNode{{v: 1 << 30}, {v: 1 << 30}},
		index: map[string]bdd{},
		memo:  map[[3]bdd]bdd{},
		varOf: map[string]int{},
		cOf:   map[string]int{},
		supp:  map[bdd]map[int]bool{},
		sizes: map[bdd]int{},
		abs:   map[bdd]bdd{},
		defs:  map[int]bdd{},
	}
}

// atom is the condition named key. Atoms of one group are values of one expression: at most one
// of them holds.
func (b *bdds) atom(key, group, text string) bdd {
	g := group
	if g == "" {
		g = "?" + key
	}
	v, ok := b.varOf[g]
	if !ok {
		v = len(b.vars)
		b.vars = append(b.vars, g)
		b.varOf[g] = v
	}
	k := g + "\x00" + key
	c, ok := b.cOf[k]
	if !ok {
		c = len(b.consts)
		b.consts = append(b.consts, text)
		b.cOf[k] = c
	}
	return b.node(v, []int{c}, []bdd{bTrue}, bFalse)
}

// hasAtom says whether f asks for the truth of the ungrouped atom named key.
func (b *bdds) hasAtom(f bdd, key string) bool {
	v, ok := b.varOf["?"+key]
	return ok && b.support(f)[v]
}

func (b *bdds) node(v int, cs []int, kids []bdd, def bdd) bdd {
	n := 0
	for _, k := range kids {
		if k != def {
			n++
		}
	}
	if n == 0 {
		return def
	}
	if n < len(kids) {
		c2, k2 := make([]int, 0, n), make([]bdd, 0, n)
		for i, k := range kids {
			if k != def {
				c2, k2 = append(c2, cs[i]), append(k2, k)
			}
		}
		cs, kids = c2, k2
	}
	key := make([]byte, 0, 16+12*n)
	key = strconv.AppendInt(key, int64(v), 36)
	key = append(key, ':')
	key = strconv.AppendInt(key, int64(def), 36)
	for i := range cs {
		key = append(key, ',')
		key = strconv.AppendInt(key, int64(cs[i]), 36)
		key = append(key, '=')
		key = strconv.AppendInt(key, int64(kids[i]), 36)
	}
	if id, ok := b.index[string(key)]; ok {
		return id
	}
	id := bdd(len(b.nodes))
	b.nodes = append(b.nodes, bddNode{v, cs, kids, def})
	b.index[string(key)] = id
	return id
}

func (b *bdds) ite(f, g, h bdd) bdd {
	switch {
	case f == bTrue:
		return g
	case f == bFalse:
		return h
	case g == h:
		return g
	case g == bTrue && h == bFalse:
		return f
	}
	if g == f {
		g = bTrue
	}
	if h == f {
		h = bFalse
	}
	k := [3]bdd{f, g, h}
	if v, ok := b.memo[k]; ok {
		return v
	}
	top := b.nodes[f].v
	if a := b.nodes[g].v; a < top {
		top = a
	}
	if a := b.nodes[h].v; a < top {
		top = a
	}
	var cs []int
	for _, x := range k {
		if n := b.nodes[x]; n.v == top {
			cs = append(cs, n.cs...)
		}
	}
	sort.Ints(cs)
	u := cs[:0]
	for i, c := range cs {
		if i == 0 || c != u[len(u)-1] {
			u = append(u, c)
		}
	}
	cs = u
	kids := make([]bdd, len(cs))
	for i, c := range cs {
		kids[i] = b.ite(b.cof(f, top, c), b.cof(g, top, c), b.cof(h, top, c))
	}
	def := b.ite(b.cof(f, top, -1), b.cof(g, top, -1), b.cof(h, top, -1))
	v := b.node(top, cs, kids, def)
	b.memo[k] = v
	return v
}

func (b *bdds) cof(f bdd, v, c int) bdd {
	n := &b.nodes[f]
	if n.v != v {
		return f
	}
	for i, k := range n.cs {
		if k == c {
			return n.kids[i]
		}
	}
	return n.def
}

// restrict is f where the variable v has the constant c, or none of those it is compared with.
func (b *bdds) restrict(f bdd, v, c int) bdd {
	memo := map[bdd]bdd{}
	var walk func(f bdd) bdd
	walk = func(f bdd) bdd {
		if f <= bTrue || !b.support(f)[v] {
			return f
		}
		if r, ok := memo[f]; ok {
			return r
		}
		n := b.nodes[f]
		var r bdd
		if n.v == v {
			r = b.cof(f, v, c)
		} else {
			kids := make([]bdd, len(n.kids))
			for i, k := range n.kids {
				kids[i] = walk(k)
			}
			r = b.node(n.v, n.cs, kids, walk(n.def))
		}
		memo[f] = r
		return r
	}
	return walk(f)
}

func (b *bdds) and(f, g bdd) bdd {
	if f > g {
		f, g = g, f
	}
	return b.ite(f, g, bFalse)
}

func (b *bdds) or(f, g bdd) bdd {
	if f > g {
		f, g = g, f
	}
	return b.ite(f, bTrue, g)
}

func (b *bdds) not(f bdd) bdd         { return b.ite(f, bFalse, bTrue) }
func (b *bdds) implies(f, g bdd) bool { return b.and(f, b.not(g)) == bFalse }

func (b *bdds) support(f bdd) map[int]bool {
	if s, ok := b.supp[f]; ok {
		return s
	}
	s := map[int]bool{}
	if f > bTrue {
		n := b.nodes[f]
		s[n.v] = true
		for _, k := range append([]bdd{n.def}, n.kids...) {
			for a := range b.support(k) {
				s[a] = true
			}
		}
	}
	b.supp[f] = s
	return s
}

// size counts the nodes of f, giving up at a limit.
func (b *bdds) size(f bdd, limit int) int {
	if n, ok := b.sizes[f]; ok {
		return n
	}
	seen := map[bdd]bool{}
	var walk func(f bdd)
	walk = func(f bdd) {
		if f <= bTrue || seen[f] || len(seen) > limit {
			return
		}
		seen[f] = true
		n := b.nodes[f]
		walk(n.def)
		for _, k := range n.kids {
			walk(k)
		}
	}
	walk(f)
	b.sizes[f] = len(seen)
	return len(seen)
}

// cap replaces a condition that has become too large by a name for it. The same condition always
// gets the same name, and its negation the negated name.
func (b *bdds) cap(f bdd, limit int) bdd {
	if f <= bTrue || b.size(f, 4*limit) <= limit {
		return f
	}
	if a, ok := b.abs[f]; ok {
		return a
	}
	k := "cond" + strconv.Itoa(int(f))
	a := b.atom(k, "", k)
	n := b.not(f)
	b.abs[f] = a
	b.abs[n] = b.not(a)
	b.defs[b.nodes[a].v] = f
	return a
}

// expand puts the conditions in place of their names. It gives up where the result gets large.
func (b *bdds) expand(f bdd) bdd {
	for i := 0; i < 40; i++ {
		v := -1
		for a := range b.support(f) {
			if _, ok := b.defs[a]; ok && a > v {
				v = a
			}
		}
		if v < 0 {
			break
		}
		d := b.defs[v]
		g := b.vars[v]
		c := b.cOf[g+"\x00"+g[1:]]
		f = b.ite(d, b.restrict(f, v, c), b.restrict(f, v, -1))
		if b.size(f, 20000) > 5000 {
			break
		}
	}
	return f
}

func (b *bdds) feasible(f bdd) bool { return f != bFalse }

// show renders one assignment that makes f true.
func (b *bdds) show(f bdd) string {
	var pos, neg []string
	for f > bTrue {
		n := b.nodes[f]
		if n.def != bFalse {
			for _, c := range n.cs {
				neg = append(neg, "not "+b.consts[c])
			}
			f = n.def
			continue
		}
		for i, k := range n.kids {
			if k != bFalse {
				pos = append(pos, b.consts[n.cs[i]])
				f = k
				break
			}
		}
	}
	if f == bFalse {
		return "never"
	}
	if len(pos)+len(neg) == 0 {
		return "always"
	}
	if len(neg) > 4 {
		neg = append(neg[:4], strconv.Itoa(len(neg)-4)+" more")
	}
	return strings.Join(append(pos, neg...), ", ")
}
