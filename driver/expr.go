package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// eg writes random script expressions.
type eg struct {
	r    *R
	keys []string
	doc  V
	w    int
	root bool // $ may appear
	ops  []string
	funs []string
	errs int // percent of constructs that are run-time errors
	cur  V   // what @ might be, or nil
}

var arithOps = []string{"+", "-", "*", "/", "%"}
var relOps = []string{"<", "<=", ">", ">="}
var eqOps = []string{"==", "!="}
var allOps = []string{"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&&", "||"}
var fun1 = []string{"abs", "avg", "ceil", "floor", "keys", "length", "prod", "sum", "to_number"}
var fun2 = []string{"contains", "ends_with", "starts_with", "tokenize"}

func (r *R) exprGen(doc V) *eg {
	acc := map[string]bool{}
	keysOf(doc, acc)
	var ks []string
	for k := range acc {
		ks = append(ks, k)
	}
	sortStrings(ks)
	if len(ks) == 0 {
		ks = []string{"a"}
	}
	return &eg{r: r, keys: ks, doc: doc, root: true, ops: allOps}
}

func (g *eg) ws() string { return g.r.ws(g.w) }

func (g *eg) key() string {
	if g.r.p(12) {
		return plainKeys[g.r.n(len(plainKeys))]
	}
	return g.keys[g.r.n(len(g.keys))]
}

// realText spells a non-negative double as a real literal.
func realText(r *R, f float64) string {
	if f < 0 || math.IsNaN(f) || math.IsInf(f, 0) {
		f = 0.5
	}
	if f != 0 && (f < 1e-15 || f > 1e22) || r.p(15) {
		s := strconv.FormatFloat(f, 'e', -1, 64)
		if !strings.Contains(s, ".") {
			s = strings.Replace(s, "e", ".0e", 1)
		}
		if r.p(30) {
			s = strings.Replace(s, "e", "E", 1)
		}
		return s
	}
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += "." + pick(r, "", "0", "00")
	}
	return s
}

func (g *eg) numLit() string {
	r := g.r
	var s string
	if r.p(70) {
		n := r.int()
		if n < 0 {
			n = -n
		}
		if n < 0 {
			n = math.MaxInt64
		}
		s = strconv.FormatInt(n, 10)
	} else {
		s = realText(r, math.Abs(r.float()))
	}
	if r.p(20) {
		return "-" + s
	}
	return s
}

func (g *eg) lit() string {
	r := g.r
	switch r.n(10) {
	case 0:
		return pick(r, "true", "false", "null")
	case 1, 2, 3, 4:
		return g.numLit()
	case 5:
		return strconv.Itoa(r.n(4))
	case 6:
		n := r.n(4)
		el := make([]string, n)
		for i := range el {
			el[i] = g.lit()
		}
		return "[" + strings.Join(el, ",") + "]"
	default:
		return r.quote(r.str())
	}
}

// ref writes a reference from @ or $.
func (g *eg) ref() string {
	r := g.r
	s := "@"
	var at V = g.cur
	known := g.cur != nil
	if g.root && r.p(25) {
		s = "$"
		at, known = g.doc, true
	}
	for n := r.n(3); n > 0; n-- {
		s += g.ws()
		switch x := at.(type) {
		case map[string]V:
			if known && len(x) > 0 && r.p(85) {
				ks := sortedKeys(x)
				k := ks[r.n(len(ks))]
				s += g.dotKey(k)
				at = x[k]
				continue
			}
		case []V:
			if known && r.p(85) {
				i := r.in(-len(x)-1, len(x))
				s += "[" + strconv.Itoa(i) + "]"
				if i < 0 {
					i += len(x)
				}
				if i >= 0 && i < len(x) {
					at = x[i]
				} else {
					known = false
				}
				continue
			}
		}
		known = false
		switch r.n(8) {
		case 0, 1, 2, 3:
			s += g.dotKey(g.key())
		case 4, 5:
			s += "[" + strconv.Itoa(r.in(-2, 3)) + "]"
		case 6:
			s += ".length"
		default:
			s += "[" + g.val(0) + "]"
		}
	}
	return s
}

func (g *eg) dotKey(k string) string {
	if isID(k, false) && g.r.p(70) {
		return "." + g.ws() + k
	}
	return "[" + g.ws() + g.r.quote(k) + g.ws() + "]"
}

// val writes an expression of any kind.
func (g *eg) val(depth int) string {
	r := g.r
	if depth <= 0 {
		if r.p(55) {
			return g.ref()
		}
		return g.lit()
	}
	switch r.n(14) {
	case 0, 1, 2, 3, 4, 5:
		return g.bin(depth)
	case 6:
		return pick(r, "!", "-", "- ", "!!", "-!", "--") + g.atom(depth-1)
	case 7:
		return "(" + g.ws() + g.val(depth-1) + g.ws() + ")"
	case 8:
		return g.call(depth - 1)
	case 9:
		return g.match(depth - 1)
	case 10:
		return g.val(0) + pick(r, " in ", " nin ") + g.list(depth-1)
	case 11:
		return g.atom(depth-1) + pick(r, "["+g.val(depth-1)+"]", ".length", g.dotKey(g.key()))
	default:
		return g.val(0)
	}
}

func (g *eg) atom(depth int) string {
	if g.r.p(50) {
		return g.ref()
	}
	return "(" + g.val(depth) + ")"
}

func (g *eg) bin(depth int) string {
	op := g.ops[g.r.n(len(g.ops))]
	a, b := g.val(depth-1), g.val(depth-1)
	if strings.HasPrefix(b, "-") && op == "-" {
		b = " " + b
	}
	return a + g.ws() + op + g.ws() + b
}

func (g *eg) list(depth int) string {
	r := g.r
	if r.p(30) {
		return g.ref() // perhaps not an array
	}
	n := r.n(5)
	el := make([]string, n)
	for i := range el {
		el[i] = g.val(depth - 1)
	}
	return "[" + strings.Join(el, g.ws()+","+g.ws()) + "]"
}

func (g *eg) call(depth int) string {
	r := g.r
	switch r.n(10) {
	case 0:
		if r.p(50) {
			return pick(r, "nosuch", "Abs", "len", "lengths", "", "max_") + "(" + g.val(depth) + ")"
		}
		return fun1[r.n(len(fun1))] + "()"
	case 1, 2, 3:
		return fun2[r.n(len(fun2))] + "(" + g.val(depth) + g.ws() + "," + g.ws() + g.val(depth) + ")"
	case 4, 5:
		n := r.n(4)
		el := make([]string, n)
		for i := range el {
			el[i] = g.val(depth)
		}
		return pick(r, "max", "min") + "(" + strings.Join(el, ",") + ")"
	default:
		return fun1[r.n(len(fun1))] + g.ws() + "(" + g.ws() + g.val(depth) + g.ws() + ")"
	}
}

var someREs = []string{"a", "^a", "a$", "^a*$", "[ab]+", ".", "^$", "", "a|b", "(ab)+", "\\d+", "^[^a]", "x?y*", "(?i)ABC", "\\w", "\\s", "[a-c0-9]{2,3}", "^.{2}$", "\\.", "é", "b\\b", "a.c"}

func (g *eg) match(depth int) string {
	r := g.r
	re := someREs[r.n(len(someREs))]
	rhs := "/" + strings.ReplaceAll(re, "/", "\\/") + "/"
	if r.p(30) {
		rhs = r.quote(re)
	}
	return g.val(0) + pick(r, " =~ ", "=~", "~") + rhs
}

// cond writes an expression meant for a filter.
func (g *eg) cond(depth int) string {
	r := g.r
	switch r.n(10) {
	case 0:
		return g.ref()
	case 1:
		return "!" + g.ref()
	case 2, 3, 4:
		return g.ref() + g.ws() + pick(r, "==", "!=", "<", "<=", ">", ">=") + g.ws() + g.lit()
	case 5:
		return g.ref() + pick(r, "==", "!=", "<", "<=", ">", ">=") + g.ref()
	case 6:
		if depth > 1 {
			return g.cond(depth-1) + g.ws() + pick(r, "&&", "||") + g.ws() + g.cond(depth-1)
		}
		return g.ref()
	default:
		return g.val(depth)
	}
}

// keyExpr writes an expression for a computed subscript.
func (g *eg) keyExpr(nest bool) string {
	r := g.r
	at := "$"
	if nest {
		at = "@"
	}
	switch r.n(10) {
	case 0, 1:
		return r.quote(g.key())
	case 2, 3:
		return strconv.Itoa(r.in(-3, 5))
	case 4:
		return fmt.Sprintf("%s.length%s%d", at, pick(r, "-", "+", "/"), r.in(1, 3))
	case 5:
		return at + g.dotKey(g.key())
	case 6:
		return g.ref()
	case 7:
		return pick(r, "1.5", "-1", "2.0", "0.0", "-0.5", "1e0", "true", "null", "foo", "[1]")
	default:
		return g.val(1)
	}
}
