package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

func init() {
	props["C26"] = func(s *shard) {
		s.deep()
		s.boundaries()
		for s.more() {
			s.fuzzCases()
		}
	}
}

// ends records how a compile-and-evaluate ends, and nothing else.
func (s *shard) ends(t string, doc V) {
	s.robust(func() outcome {
		o := evalOnce(t, doc)
		if s.show {
			fmt.Printf("%.200q %s %s\n", t, o.R, o.Msg)
		}
		return o
	})
}

func nestArr(n int, in V) V {
	for i := 0; i < n; i++ {
		in = []V{in}
	}
	return in
}
func nestObj(n int, in V) V {
	for i := 0; i < n; i++ {
		in = map[string]V{"a": in}
	}
	return in
}

// deep: nesting and sizes up to the tens of thousands.
func (s *shard) deep() {
	rep := strings.Repeat
	k := 0
	each := func(f func()) {
		k++
		if s.mine(k) {
			f()
		}
	}
	small := map[string]V{"a": []V{1.0, "x", nil, []V{2.0}}, "b": map[string]V{"a": 5.0}}
	sizes := []int{1000, 10000, 40000}
	if !s.quick() {
		sizes = []int{300, 1000, 3000, 10000, 20000, 40000, 65535, 65536, 90000}
	}
	for _, n := range sizes {
		n := n
		for _, t := range []string{
			"$[(" + rep("(", n) + "1" + rep(")", n) + ")]",
			"$.a[?(" + rep("(", n) + "@" + rep(")", n) + ")]",
			"$[?(" + rep("(", n), "$[?(" + rep("(", n) + "1", "$[(" + rep("(", n) + rep(")", n), "$" + rep("[(", n), "$" + rep("[", n), "$" + rep("[?(", n),
			"$.a[?(" + rep("-", n) + "1)]", "$.a[?(" + rep("!", n) + "@)]", "$.a[?(" + rep("-!", n) + "@)]", "$[?(" + rep("-", n),
			"$[?(" + rep("[", n) + rep("]", n) + ")]", "$[?(" + rep("[", n), "$[?(" + rep("[1,", n) + rep("]", n) + ")]", "$.a[?(@ == " + rep("[", n) + "1" + rep("]", n) + ")]",
			"$.a[?(" + rep("[", n) + rep("]", n) + " == " + rep("[", n) + rep("]", n) + ")]",
			"$.a[?(" + rep("[", n) + rep("]", n) + " < 1 || " + rep("[", n) + "1" + rep("]", n) + " == 1)]",
			"$.a[?(1 in " + rep("[", n) + "1" + rep("]", n) + ")]",
			"$.a[?(" + rep("abs(", n) + "1" + rep(")", n) + ")]", "$.a[?(" + rep("abs(", n), "$.a[?(" + rep("nosuch(", n) + rep(")", n) + ")]",
			"$.a[?(max(" + rep("1,", n) + "2))]", "$.a[?(contains(" + rep("1,", n) + "2))]",
			"$" + rep(".a", n), "$" + rep("['a']", n), "$" + rep("[0]", n), "$" + rep("[0,1]", n), "$" + rep("[:]", n), "$" + rep("[(0)]", n),
			"$" + rep(".", n), "$" + rep("..", n), "$" + rep("..a", n), "$[" + rep("0,", n) + "0]", "$[" + rep("0:,", n) + "0]", "$[" + rep(":", n) + "]", "$..[" + rep("'a',", n) + "'b']",
			"$.a[?(@" + rep(".a", n) + ")]", "$.a[?(@" + rep("[0]", n) + ")]", "$.a[?(@" + rep("['a']", n) + ")]", "$.a[?($" + rep(".length", n) + ")]",
			"$.a[?(1" + rep("+1", n) + ")]", "$.a[?(1" + rep("*(1", n) + rep(")", n) + ")]", "$.a[?(1" + rep("/0", n) + ")]", "$.a[?(@" + rep(" && @", n) + ")]", "$.a[?(@" + rep(" || @", n) + ")]", "$.a[?(@" + rep(" == @", n) + ")]",
			"$.a[?(@ =~ /" + rep("a", n) + "/)]", "$.a[?(@ =~ /" + rep("(", n) + rep(")", n) + "/)]", "$.a[?(@ =~ /" + rep("(a|", n) + rep(")", n) + "/)]", "$.a[?('" + rep("a", n) + "' =~ /(a*)*b/)]", "$.a[?('" + rep("a", n) + "' =~ '" + rep("a?", n/100) + "')]", "$.a[?(@ =~ /" + rep("[", n) + "/)]", "$.a[?(@ =~ /" + rep("\\", n) + "/)]", "$.a[?(@ =~ /" + rep("a*", n) + "/)]",
			"$." + rep("a", n), "$['" + rep("a", n) + "']", "$['" + rep("\\u00e9", n) + "']", "$['" + rep("\\", n) + "']", "$['" + rep("\\ud800", n) + "']", "$['" + rep("é", n) + "']", "$['" + rep("\xff", n) + "']", "$[?('" + rep("\xc3", n) + "' == @)]",
			"$." + rep("1", n), "$[" + rep("9", n) + "]", "$[-" + rep("0", n) + "1]", "$[?(" + rep("9", n) + ".5)]", "$[?(0." + rep("3", n) + ")]", "$[?(1.e" + rep("0", n) + "5)]", "$[?(1.0e-" + rep("9", n) + ")]",
			"$" + rep(" ", n), "$" + rep("\n", n) + ".a", "$[" + rep(" ", n) + "0" + rep("\t", n) + "]", rep("$", n), rep("@", n), rep("\x00", n), rep("\xff", n), rep("a", n), rep("[", n), rep(")", n), rep("'", n), rep("\\", n), rep("-", n), "$" + rep("*", n), "$" + rep("?", n), "$[" + rep("-", n) + "1]", "$[?(" + rep("=", n) + ")]",
			"$[?(/" + rep("/", n) + ")]", "$[?(" + rep("/a/", n) + ")]", "$[?(tokenize('" + rep("a,", n) + "', ','))]", "$.a[?(contains('" + rep("a", n) + "b', '" + rep("a", n/2) + "c'))]",
		} {
			t := t
			each(func() { s.ends(t, small) })
		}
		docs := []func() V{
			func() V { return nestArr(n, 1.0) }, func() V { return nestObj(n, "x") }, func() V { return nestArr(n, []V{}) },
			func() V { return map[string]V{"a": hund(n), "b": nestObj(n, 1.0)} },
			func() V {
				m := map[string]V{}
				for i := 0; i < n; i++ {
					m["k"+strconv.Itoa(i)] = []V{float64(i)}
				}
				return m
			},
			func() V {
				a := make([]V, n)
				for i := range a {
					a[i] = []V{map[string]V{}, float64(i), "s", nil}[i%4]
				}
				return a
			},
			func() V { return strings.Repeat("aé", n) },
			func() V { return []V{strings.Repeat("a", n), strings.Repeat("a", n) + "b", strings.Repeat("1", n)} },
		}
		for i, mk := range docs {
			for _, t := range []string{"$", "$..*", "$..a", "$..[0]", "$..[-1]", "$..[::-1]", "$..['a','b']", "$..[?(@)]", "$..[?(@.length == 1)]", "$[*]", "$.*.*", "$[?(@)]", "$[?(@ == 5)]", "$[?(@ == @)]", "$[?(@ != @)]", "$[?(@ < 'a')]", "$[?(@ == 'a')]", "$[?(@ == [1])]", "$[?(length(@) > 1)]", "$[?(keys(@))]", "$[?(sum(@) > 1)]", "$[?(max(@) > 1)]", "$[?(max($) == 1)]", "$[?(avg(@))]", "$[?(contains(@, 'b'))]", "$[?(contains('a', @))]", "$[?(starts_with(@, 'aaaa'))]", "$[?(tokenize(@, 'a'))]", "$[?(to_number(@))]", "$[?(@ + 1)]", "$[?(-@)]", "$[?(@ == 1 || @ == '')]", "$..[(@.length-1)]", "$[1:-1]", "$[-5:]", "$[::3]", "$['k1','k2']", "$.a[?(@ > 5)]", "$.a[-1]", "$[(@)]", "$[($.a.length-1)]", "$[?(keys($))]", "$.a[?(@ in $.a[0:1])]", "$..[?(nosuch(@))]", "$[?(@ in 5)]", "$[?(@ =~ 'a$')]", "$[?(@ =~ /(a|aa)+$/)]"} {
				i, t, mk := i, t, mk
				if i >= 2 && strings.Contains(t, "keys($)") {
					continue
				}
				if (strings.Contains(t, "max($)") || strings.Contains(t, "keys($)")) && n > 3000 {
					continue // evaluated for each of n candidates
				}
				each(func() { s.ends(t, mk()) })
			}
		}
	}
}

var edges = []string{"0", "1", "-1", "2", "-2", "3", "-3", "4", "-4", "9223372036854775807", "-9223372036854775806", "9223372036854775806", "-9223372036854775807", "-9223372036854775808", "9223372036854775808", "4611686018427387904", "-4611686018427387905", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967295", "8388607", "8388608", "4194303", "4194304", "-4194304", "-4194305", "18446744073709551615", "18446744073709551616", "99999999999999999999999"}

// boundaries: such integers wherever an integer may stand.
func (s *shard) boundaries() {
	docs := []V{[]V{}, flat(1), flat(3), map[string]V{"0": 1.0, "9223372036854775807": 2.0}, "str", nil, 3.0, []V{flat(3), flat(0), nil, "x"}}
	exts := []V{math.MaxFloat64, -math.MaxFloat64, 9223372036854775807.0, -9223372036854775808.0, 9223372036854775809.0, 1e19, -1e19, 0.5, -0.5, math.Copysign(0, -1), 5e-324, 1e300}
	k := 0
	for _, a := range edges {
		for _, t := range []string{"$[%]", "$.%", "$..[%]", "$..%", "$[%,%]", "$[%:]", "$[:%]", "$[::%]", "$[(%)]", "$[?(@[%])]", "$[?($[%] == %)]", "$[(0%)]", "$.(%)", "$..[(%)]", "$[?(% in [%])]", "$[?(abs(%))]", "$[?(%.0)]", "$[?(%.5e10)]"} {
			k++
			if s.mine(k) {
				for _, d := range docs {
					s.ends(strings.ReplaceAll(t, "%", a), d)
				}
			}
		}
		for _, b := range edges {
			k++
			if !s.mine(k) {
				continue
			}
			r := newR(s.r.u64())
			c := edges[r.n(len(edges))]
			for _, t := range []string{"$[" + a + ":" + b + "]", "$[" + a + ":" + b + ":" + c + "]", "$[" + a + "::" + b + "]", "$[:" + a + ":" + b + "]", "$..[" + a + ":" + b + ":-1]", "$[" + a + "," + b + ":" + c + "]"} {
				s.ends(t, docs[r.n(len(docs))])
				s.ends(t, docs[1+r.n(2)])
			}
			for _, op := range []string{"+", "-", "*", "/", "%", "<", "=="} {
				e := "(" + a + ") " + op + " (" + b + ")"
				s.ends("$[?("+e+")]", docs[2])
				s.ends("$[("+e+")]", docs[r.n(len(docs))])
			}
		}
	}
	for i, x := range exts {
		for j, y := range exts {
			k++
			if !s.mine(k) {
				continue
			}
			doc := map[string]V{"x": x, "y": y, "a": flat(3), "i": float64(i*16 + j)}
			for _, t := range []string{"$.a[($.x)]", "$.a[?(@[$.x])]", "$.a[($.x+$.y)]", "$.a[($.x*$.y)]", "$.a[($.x/$.y)]", "$.a[($.x%$.y)]", "$.a[($.x-$.y)]", "$.a[?($.a[$.x] == 1)]", "$[($.x)]", "$.a[?($[$.x])]", "$.a[(floor($.x))]", "$.a[(ceil($.x))]", "$.a[(abs($.x))]", "$.a[?(max($.x,$.y) == @)]", "$.a[?(sum([$.x,$.y]))]", "$.a[?(prod([$.x,$.y]))]", "$.a[?(avg([$.x,$.y]))]", "$.a[(to_number($.x))]", "$.a[?($.x == '1e400')]", "$.a[?($.x in [$.y])]"} {
				s.ends(t, doc)
			}
		}
	}
}

var fnNames = []string{"abs", "avg", "ceil", "contains", "ends_with", "floor", "keys", "length", "max", "min", "prod", "starts_with", "sum", "to_number", "tokenize", "nosuch", "in", "", "true"}

func (s *shard) fuzzCases() {
	r := newR(s.r.u64())
	doc := r.anyDoc()
	try := func(t string) { s.ends(t, doc) }
	switch r.n(8) {
	case 0: // bytes
		b := make([]byte, r.n(40))
		for i := range b {
			b[i] = byte(r.n(256))
		}
		try(string(b))
		try("$" + string(b))
		try("$[" + string(b) + "]")
		try("$[?(" + string(b) + ")]")
		try("$['" + string(b) + "']")
		try("$[?(@ =~ /" + string(b) + "/)]")
	case 1, 2: // tokens
		var sb strings.Builder
		for i := r.n(25); i > 0; i-- {
			sb.WriteString(bits0[r.n(len(bits0))])
		}
		t := sb.String()
		try("$" + t)
		try("$[" + t + "]")
		try("$[?(" + t + ")]")
		try("$..[?(@" + t + ")]")
	case 3, 4, 5: // changed paths
		p := r.pathGen(doc, allSteps).path(r.in(1, 4))
		try(p)
		for i := 0; i < 8; i++ {
			q := p
			for j := r.in(1, pick(r, 1, 2, 4, 8)); j > 0; j-- {
				q = r.mutate(q)
			}
			try(q)
		}
		// two spliced
		q := r.pathGen(doc, allSteps).path(r.in(1, 3))
		try(p[:r.n(len(p)+1)] + q[r.n(len(q)+1):])
		try(p + strings.TrimPrefix(q, "$"))
		for i := 0; i <= len(p) && len(p) < 60; i += r.in(1, 7) {
			try(p[:i])
		}
	case 6: // any function on anything
		nodes := nodesOf(doc, nil)
		_ = nodes
		g := r.exprGen(doc)
		arg := func() string {
			switch r.n(5) {
			case 0:
				return pick(r, "@", "$", "nosuch", "[]", "null", "''", "$.nosuch", "true", "/a/", "[@]", "[null]", "[[]]", "-'a'", "1/0")
			case 1:
				return r.quote(r.str())
			default:
				return g.val(2)
			}
		}
		var as []string
		for i := r.n(4); i > 0; i-- {
			as = append(as, arg())
		}
		e := fnNames[r.n(len(fnNames))] + "(" + strings.Join(as, ",") + ")"
		try("$..[?(" + e + ")]")
		try("$[*][?(" + e + " == @)]")
		try("$[(" + e + ")]")
		e = arg() + " " + pick(r, "+", "-", "*", "/", "%", "<", "<=", "==", "!=", "in", "nin", "=~", "~", "&&", "||") + " " + arg()
		try("$..[?(" + e + ")]")
		try("$[*][?(" + e + ")]")
		try("$..[(" + e + ")]")
		try("$[?(" + arg() + "[" + arg() + "])]")
	default: // regular expressions
		re := r.regex(3)
		for j := r.n(4); j > 0 && re != ""; j-- {
			i := r.n(len(re) + 1)
			re = re[:i] + pick(r, "(", ")", "[", "]", "*", "+", "?", "{", "}", "{2}", "{1000}", "{1001}", "{2,1}", "|", "\\", "^", "$", ".", "[^", "[a-", "(?i)", "(?P<", "\\Q", "\\x", "\\p{", "\\pL", "[[:alpha:]]", "\xff", "é", "/", "\\/", "'", "\\b", "\\z") + re[i:]
		}
		try("$..[?(@ =~ /" + re + "/)]")
		try("$[?(@ =~ " + quoteLit(re) + ")]")
		try("$[?('" + pick(r, "aaa", "", "abc", "é") + "' =~ /" + re + "/)]")
		try("$[?(tokenize(@, " + quoteLit(re) + "))]")
		try("$[?(tokenize('a,b', /" + re + "/))]")
	}
}
