package main

import (
	"math"
	"strconv"
	"strings"
)

// pg writes random paths for a document.
type pg struct {
	r      *R
	keys   []string // names worth asking for
	w      int      // percent of white space between tokens
	kinds  stepW
	ex     *eg // expressions
	maxIdx int
	cur    []V // values selected so far, roughly, to stay on the document
}

type stepW struct{ member, index, slice, wild, union, filter, exp, nmember, nindex, nslice, nwild, nunion, nfilter, nexp int }

func (w stepW) list() []int {
	return []int{w.member, w.index, w.slice, w.wild, w.union, w.filter, w.exp, w.nmember, w.nindex, w.nslice, w.nwild, w.nunion, w.nfilter, w.nexp}
}

var plainSteps = stepW{member: 8, index: 6, wild: 4, union: 5}
var allSteps = stepW{member: 8, index: 5, slice: 3, wild: 4, union: 4, filter: 5, exp: 2, nmember: 3, nindex: 2, nslice: 1, nwild: 2, nunion: 2, nfilter: 2, nexp: 1}

func (r *R) pathGen(doc V, kinds stepW) *pg {
	acc := map[string]bool{}
	keysOf(doc, acc)
	var ks []string
	for k := range acc {
		ks = append(ks, k)
	}
	// map order must not decide
	sortStrings(ks)
	if len(ks) == 0 {
		ks = []string{"a"}
	}
	g := &pg{r: r, keys: ks, kinds: kinds, maxIdx: 5, cur: []V{doc}}
	if r.p(15) {
		g.w = 30
	}
	g.ex = r.exprGen(doc)
	return g
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (g *pg) key() string {
	r := g.r
	if len(g.cur) > 0 && r.p(70) {
		if m, ok := g.cur[r.n(len(g.cur))].(map[string]V); ok && len(m) > 0 {
			ks := sortedKeys(m)
			return ks[r.n(len(ks))]
		}
	}
	switch r.n(10) {
	case 0:
		return oddKeys[r.n(len(oddKeys))]
	case 1:
		return plainKeys[r.n(len(plainKeys))]
	default:
		return g.keys[r.n(len(g.keys))]
	}
}

func (g *pg) idx() int64 {
	r := g.r
	if len(g.cur) > 0 && r.p(60) {
		if a, ok := g.cur[r.n(len(g.cur))].([]V); ok {
			l := len(a)
			return int64(r.in(-l-1, l+1))
		}
	}
	if r.p(12) {
		n := r.int()
		if n == math.MinInt64 {
			n++
		}
		return n
	}
	return int64(r.in(-g.maxIdx-1, g.maxIdx))
}

func (g *pg) int(n int64) string {
	s := strconv.FormatInt(n, 10)
	if n < 0 {
		return "-" + g.ws() + s[1:]
	}
	if g.r.p(3) {
		s = "0" + s
	}
	return s
}

func (g *pg) ws() string { return g.r.ws(g.w) }

// subscript in brackets naming a member
func (g *pg) keyText() string {
	k := g.key()
	if isID(k, true) && g.r.p(40) {
		return k
	}
	return g.r.quote(k)
}

func (g *pg) bound(l int) string {
	r := g.r
	switch r.n(8) {
	case 0, 1:
		return ""
	case 2:
		return g.int(g.idx())
	default:
		return g.int(int64(r.in(-l-2, l+2)))
	}
}

func (g *pg) sliceText() string {
	r := g.r
	l := g.maxIdx
	if len(g.cur) > 0 {
		if a, ok := g.cur[r.n(len(g.cur))].([]V); ok {
			l = len(a)
		}
	}
	s := g.bound(l) + g.ws() + ":" + g.ws() + g.bound(l)
	if r.p(60) {
		s += g.ws() + ":" + g.ws()
		switch r.n(8) {
		case 0:
		case 1:
			s += g.bound(l)
		default:
			s += g.int(int64(r.in(-3, 3)))
		}
	}
	return s
}

func (g *pg) unionText() string {
	r := g.r
	n := r.in(2, 4)
	if r.p(5) {
		n = r.in(5, 12)
	}
	var el []string
	for i := 0; i < n; i++ {
		switch r.n(4) {
		case 0:
			el = append(el, g.sliceText())
		case 1:
			el = append(el, g.int(g.idx()))
		default:
			el = append(el, g.keyText())
		}
		if r.p(15) {
			el = append(el, el[r.n(len(el))]) // duplicate
		}
	}
	return strings.Join(el, g.ws()+","+g.ws())
}

func (g *pg) brackets(s string) string { return "[" + g.ws() + s + g.ws() + "]" }

// step writes one step.
func (g *pg) step() string {
	r := g.r
	k := pickW(r, g.kinds.list())
	nest := k >= 7
	dot := "."
	br := ""
	if nest {
		dot, br = "..", ".."
		k -= 7
		if k >= 1 {
			// the nest list has no separate exp/filter shift
		}
	}
	dot, br = g.ws()+dot+g.ws(), g.ws()+br+g.ws()
	switch k {
	case 0:
		k := g.key()
		if isID(k, true) && r.p(75) {
			return dot + k
		}
		return br + g.brackets(r.quote(k))
	case 1:
		n := g.idx()
		if r.p(25) {
			return dot + g.int(n)
		}
		return br + g.brackets(g.int(n))
	case 2:
		return br + g.brackets(g.sliceText())
	case 3:
		if r.p(50) {
			return dot + "*"
		}
		return br + g.brackets("*")
	case 4:
		return br + g.brackets(g.unionText())
	case 5:
		return br + g.brackets("?("+g.ws()+g.ex.cond(g.r.in(1, 3))+g.ws()+")")
	default:
		e := "(" + g.ws() + g.ex.keyExpr(nest) + g.ws() + ")"
		if r.p(40) {
			return dot + e
		}
		return br + g.brackets(e)
	}
}

// path writes a path of n steps, trying to stay where there is something to select.
func (g *pg) path(n int) string {
	s := g.ws() + "$"
	for i := 0; i < n; i++ {
		st := g.step()
		s += st
		g.advance(st)
	}
	return s + g.ws()
}

// advance follows a step on the document by evaluating nothing: it only guesses, from the shape of the step.
func (g *pg) advance(st string) {
	t := strings.TrimSpace(st)
	var next []V
	for _, v := range g.cur {
		src := []V{v}
		if strings.HasPrefix(t, "..") {
			src = nodesOf(v, nil)
		}
		for _, s := range src {
			switch s := s.(type) {
			case []V:
				next = append(next, s...)
			case map[string]V:
				for _, k := range sortedKeys(s) {
					if t == "."+k || t == ".."+k || strings.Contains(t, "*") || strings.Contains(t, k) {
						next = append(next, s[k])
					}
				}
			}
			if len(next) > 50 {
				break
			}
		}
	}
	g.cur = next
}
