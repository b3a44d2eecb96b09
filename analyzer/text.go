package main

import (
	"fmt"
	"sort"
	"strings"
)

// What the operations on a text can make of it is followed as a chain of transducers: each
// replacement reads the characters the one before it gives and hands on its own. The input is any
// text over the characters that matter. The states of the chain together with the state of the
// reader of the result are finite, so all of them are visited.

// a symbol is a character, marked when it was put in by a replacement, with the character that
// was replaced
type textSym int

const textPut textSym = 1 << 16

func (s textSym) ch() byte  { return byte(s & 0xff) }
func (s textSym) put() bool { return s&textPut != 0 }
func (s textSym) of() byte  { return byte(s >> 8 & 0xff) }

type textStage struct {
	keys, vals []string
	some       bool // not every occurrence is replaced
	cut        bool // only a part of the text is kept
}

type textPend struct {
	s   []textSym
	cut int
}

// textTestAt is a test of the text after a number of operations.
type textTestAt struct {
	stage int
	kind  string
	s     string
	c     bdd
}

// textEnd is how a text can end: the results of the tests and the state of the reader.
type textEnd struct {
	tests string
	mode  string
	fail  string
	show  string
}

func textStages(ops []op) ([]textStage, bool) {
	var out []textStage
	for _, o := range ops {
		switch o.kind {
		case "replace", "replacesome":
			b := o.b
			if o.by != nil {
				b = ropeSkeleton(o.by)
			}
			if o.a == "" {
				return nil, false
			}
			out = append(out, textStage{keys: []string{o.a}, vals: []string{b}, some: o.kind == "replacesome"})
		case "replacer":
			p := strings.Split(o.a, "\x01")
			st := textStage{}
			for i := 0; i+1 < len(p); i += 2 {
				if p[i] == "" {
					return nil, false
				}
				st.keys, st.vals = append(st.keys, p[i]), append(st.vals, p[i+1])
			}
			out = append(out, st)
		case "quote":
			out = append(out, textStage{
				keys: []string{"\\", "\"", "\n", "\r", "\t", "\x00"},
				vals: []string{"\\\\", "\\\"", "\\n", "\\r", "\\t", "\\x00"}})
		case "upper", "lower", "trim", "trimprefix", "trimsuffix", "ucfirst":
			out = append(out, textStage{})
		case "slice":
			out = append(out, textStage{cut: true})
		default:
			return nil, false
		}
	}
	return out, true
}

// ropeSkeleton writes a text with a letter for each part that is not constant.
func ropeSkeleton(r *rope) string {
	switch r.kind {
	case rConst:
		return r.s
	case rCat:
		s := ""
		for _, p := range r.parts {
			s += ropeSkeleton(p)
		}
		return s
	}
	return "x"
}

// feed gives what a stage can hand on for one more symbol.
func (st *textStage) feed(p textPend, c textSym, end bool) (outs []textFed) {
	if st.cut {
		switch {
		case end:
			return []textFed{{p, nil, ""}}
		case p.cut == 0:
			return []textFed{{textPend{cut: 0}, nil, ""}, {textPend{cut: 1}, []textSym{c}, ""}}
		case p.cut == 1:
			return []textFed{{textPend{cut: 1}, []textSym{c}, ""}, {textPend{cut: 2}, nil, ""}}
		}
		return []textFed{{p, nil, ""}}
	}
	if len(st.keys) == 0 {
		if end {
			return []textFed{{}}
		}
		return []textFed{{textPend{}, []textSym{c}, ""}}
	}
	pend := append([]textSym{}, p.s...)
	if !end {
		pend = append(pend, c)
	}
	return st.settle(pend, nil, "", end, 0)
}

type textFed struct {
	p    textPend
	out  []textSym
	fail string
}

func (st *textStage) settle(pend, out []textSym, fail string, end bool, depth int) []textFed {
	for len(pend) > 0 {
		wait, hit := false, -1
		for i, k := range st.keys {
			n := len(k)
			if len(pend) < n {
				n = len(pend)
			}
			same := true
			for j := 0; j < n; j++ {
				if pend[j].ch() != k[j] {
					same = false
					break
				}
			}
			if !same {
				continue
			}
			if n == len(k) {
				hit = i
				break
			}
			if !end {
				wait = true
				break
			}
		}
		if wait {
			break
		}
		if hit < 0 {
			out = append(out, pend[0])
			pend = pend[1:]
			continue
		}
		k, v := st.keys[hit], st.vals[hit]
		var res []textFed
		if st.some && depth < 4 {
			res = st.settle(append([]textSym{}, pend[1:]...), append(append([]textSym{}, out...), pend[0]), fail, end, depth+1)
		}
		for _, s := range pend[:len(k)] {
			if s.ch() == '&' && s.put() {
				fail = "escaped text is escaped again"
			}
		}
		for i := 0; i < len(v); i++ {
			s := textSym(v[i])
			// what a replacement keeps of the text it replaces is still the text
			if !strings.Contains(k, string(v[i])) {
				s |= textPut
			} else if v[i] == '&' && strings.HasPrefix(v, "&") && len(v) > 1 {
				s |= textPut
			}
			if v[i] == '&' && len(k) == 1 {
				s |= textSym(k[0]) << 8
			}
			out = append(out, s)
		}
		pend = pend[len(k):]
		if res != nil {
			return append(res, st.settle(append([]textSym{}, pend...), out, fail, end, depth)...)
		}
	}
	return []textFed{{textPend{s: append([]textSym{}, pend...)}, out, fail}}
}

// textChain follows a text through its operations into a reader. The reader gives the next state
// for a symbol, and what is wrong about it.
func textChain(stages []textStage, alphabet string, tests []textTestAt, mode string, read func(mode string, s textSym) (string, string)) []textEnd {
	n := len(stages)
	type config struct {
		pend []textPend
		mons []string
		mode string
		fail string
		show string
	}
	key := func(c config) string {
		var b strings.Builder
		for _, p := range c.pend {
			fmt.Fprint(&b, p.s, p.cut, ";")
		}
		fmt.Fprintf(&b, "%q %s %s", c.mons, c.mode, c.fail)
		return b.String()
	}
	// the state of a test is what decides it: the end of the text so far, or its start
	mon := func(t textTestAt, st string, ch byte) string {
		switch t.kind {
		case "HasSuffix":
			st += string(ch)
			if len(st) > len(t.s) {
				st = st[len(st)-len(t.s):]
			}
		case "HasPrefix":
			if len(st) < len(t.s) {
				st += string(ch)
			}
		case "Contains":
			if st == t.s {
				return st
			}
			st += string(ch)
			for st != "" && !strings.HasPrefix(t.s, st) {
				st = st[1:]
			}
		}
		return st
	}
	var push func(c config, stage int, in []textSym, end bool) []config
	push = func(c config, stage int, in []textSym, end bool) []config {
		cs := []config{c}
		for _, s := range in {
			var next []config
			for _, c := range cs {
				c.mons = append([]string{}, c.mons...)
				for i, t := range tests {
					if t.stage == stage {
						c.mons[i] = mon(t, c.mons[i], s.ch())
					}
				}
				if stage == n {
					if c.fail == "" {
						c.mode, c.fail = read(c.mode, s)
					}
					if c.fail != "" {
						c.mode = ""
					}
					next = append(next, c)
					continue
				}
				for _, f := range stages[stage].feed(c.pend[stage], s, false) {
					d := c
					d.pend = append([]textPend{}, c.pend...)
					d.pend[stage] = f.p
					if f.fail != "" && d.fail == "" {
						d.fail = f.fail
					}
					next = append(next, push(d, stage+1, f.out, false)...)
				}
			}
			cs = next
		}
		if end && stage < n {
			var next []config
			for _, c := range cs {
				for _, f := range stages[stage].feed(c.pend[stage], 0, true) {
					d := c
					d.pend = append([]textPend{}, c.pend...)
					d.pend[stage] = textPend{}
					next = append(next, push(d, stage+1, f.out, true)...)
				}
			}
			cs = next
		}
		return cs
	}
	start := config{pend: make([]textPend, n), mons: make([]string, len(tests)), mode: mode}
	work := []config{start}
	seen := map[string]bool{key(start): true}
	ends := map[string]textEnd{}
	for len(work) > 0 && len(seen) < 20000 {
		c := work[0]
		work = work[1:]
		for _, e := range push(c, 0, nil, true) {
			var b strings.Builder
			for i, t := range tests {
				ok := e.mons[i] == t.s
				if ok {
					b.WriteByte('1')
				} else {
					b.WriteByte('0')
				}
			}
			t := textEnd{b.String(), e.mode, e.fail, e.show}
			k := t.tests + "|" + t.mode + "|" + t.fail
			if _, ok := ends[k]; !ok {
				ends[k] = t
			}
		}
		for i := 0; i < len(alphabet); i++ {
			c := c
			c.show += string(alphabet[i])
			for _, d := range push(c, 0, []textSym{textSym(alphabet[i])}, false) {
				if k := key(d); !seen[k] {
					seen[k] = true
					work = append(work, d)
				}
			}
		}
	}
	var keys []string
	for k := range ends {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []textEnd
	for _, k := range keys {
		out = append(out, ends[k])
	}
	return out
}

// textAlphabet is the characters that make a difference to the operations, tests and the reader.
func textAlphabet(stages []textStage, tests []textTestAt, special string) string {
	has := map[byte]bool{}
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			has[s[i]] = true
		}
	}
	add(special)
	for _, st := range stages {
		for _, k := range st.keys {
			add(k)
		}
	}
	for _, t := range tests {
		add(t.s)
	}
	// letters all behave like one that is not used, except where they are looked for
	add("x")
	var l []byte
	for c := range has {
		l = append(l, c)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return string(l)
}
