package main

import (
	"math"
	"strconv"
)

// sequences calls f with every sequence of 0 to n tokens that belongs to this shard.
func (s *shard) sequences(toks []string, n int, f func(string)) {
	i := 0
	var rec func(p string, n int)
	rec = func(p string, n int) {
		i++
		if s.mine(i) {
			f(p)
		}
		if n == 0 {
			return
		}
		for _, t := range toks {
			rec(p+t, n-1)
		}
	}
	rec("", n)
}

var pathToks = []string{"$", ".", "..", "[", "]", "*", "a", "0", "-1", "'b'", ":", ",", "(", ")", "?(", "@"}
var exprToks = []string{"@", "$", ".", "[", "]", "(", ")", "1", "a", "'b'", "-", "!", "==", "&&", "in ", "nin ", ",", "*", "/", "=~", "1.5", "true"}

// everyText runs every text of a few tokens, alone and in the places where paths have their own language.
func (s *shard) everyText() {
	d := s.newDoc(grammarDoc)
	in := func(a, z string, toks []string, n int) {
		s.sequences(toks, n, func(p string) { s.once(a+p+z, d) })
	}
	more := 0
	if !s.quick() {
		more = 1
	}
	in("$", "", pathToks, 4)
	in("$[", "]", pathToks, 3+more)
	in("$..[", "]", []string{"*", "a", "0", "-1", ":", ",", "(", ")", "?(", "@"}, 3+more)
	in("$[?(", ")]", exprToks, 3+more)
	in("$[(", ")]", []string{"@", "$", ".", "[", "]", "(", ")", "1", "a", "-", ","}, 3+more)
	in("$.", " .a", []string{"a", "-", "0", " ", "'", "\"", "\\", "é", "_", "*", "(", ")", "1"}, 3+more)
	in("$[", "]", []string{"0", "1", "-", " ", "9223372036854775807", "9223372036854775808", ":", ",", "2"}, 3+more)
	in("$[?(@ == ", ")]", []string{"0", "1", ".", "e", "E", "+", "-", "5", " ", "x", "_"}, 4)
	in("$[?(@ =~ ", ")]", []string{"/", "a", "\\", "\\/", "'", "(", ")", "[", "]", "*", "|", " "}, 3+more)
	if !s.quick() {
		in("$", "", []string{".", "..", "[", "]", "*", "a", "0", ":", ",", "'b'"}, 5)
		in("$[?(", ")]", []string{"@", ".", "a", "[", "]", "(", ")", "1", "-", "==", ","}, 5)
	}
}

// everyString runs every short string literal made of the pieces that matter in one.
func (s *shard) everyString() {
	ks := map[string]V{}
	for _, k := range []string{"", "a", "\\", "/", "'", "\"", "n", "\n", "u0041", "A", "A1", "\u0041\u0041", "é", "\ufffd", "😀", "\b", "\t", "aa", "\\\\", "a/", "x", "\ufffd\ufffd", "😀a", "d83d", "\ufffda", "b", "t"} {
		ks[k] = k + "!"
	}
	d := s.newDoc(ks)
	toks := []string{"a", "\\", "/", "'", "\"", "n", "u", "\\u0041", "\\ud83d", "\\ude00", "\\u00e9", "\x01", "\xff", "é", "\\b"}
	n := 3
	if !s.quick() {
		n = 4
	}
	for _, q := range []string{"'", "\""} {
		s.sequences(toks, n, func(p string) { s.once("$["+q+p+q+"]", d) })
	}
	s.sequences(toks, 2, func(p string) { s.once("$[?(@ == '"+p+"!')]", d) })
}

// everyPair runs every pair of operators in a row, with operands for which the grouping shows, and every unary or
// postfix operator beside every binary one.
func (s *shard) everyPair() {
	doc := map[string]V{"C": append([]V{"none", -0.5, 13.0, 15.0, 17.0, 0.25, -7.0, -5.0}, smallCands...), "n": 5.0, "s": "ab", "arr": []V{3.0, 2.0, 5.0}, "obj": map[string]V{"a": 4.0, "b": []V{1.0}}, "t": true, "z": nil}
	d := s.newDoc(doc)
	ops := []string{"||", "&&", "==", "!=", "<", "<=", ">", ">=", "=~", "~", " in ", " nin ", "+", "-", "*", "/", "%"}
	trip := [][3]string{{"7", "4", "3"}, {"2", "3", "4"}, {"0", "1", "2"}, {"1", "0", "0"}, {"8", "2", "2"}, {"1", "1", "1"}, {"2", "2", "1"}, {"0", "0", "1"}, {"3", "2", "1"}, {"1", "2", "true"}, {"$.zz", "0", "1"}, {"1", "$.zz", "2"}, {"5", "0.5", "2"}, {"-3", "2", "2"},
		{"1", "[1]", "[true]"}, {"1", "1", "[1]"}, {"'ab'", "'b'", "true"}, {"'ab'", "'a'", "'b'"}, {"'a'", "[1]", "['a']"}, {"true", "'t'", "'r'"}, {"[1]", "1", "[[1]]"}, {"$.n", "$.arr", "$.t"}}
	i := 0
	for _, a := range ops {
		for _, b := range ops {
			for _, t := range trip {
				i++
				if !s.mine(i) {
					continue
				}
				e := t[0] + a + t[1] + b + t[2]
				s.once("$.C[?(@ == ("+e+" || 'none'))]", d)
				s.once("$.C[?((@ == 'none') == ("+e+"))]", d)
				if i%5 == 0 {
					s.once("$.C[?(["+e+"] == ["+t[0]+a+"("+t[1]+b+t[2]+")])]", d)
					s.once("$.C[?(["+e+"] == [("+t[0]+a+t[1]+")"+b+t[2]+"])]", d)
				}
			}
		}
	}
	un := []string{"-", "!", "--", "!!", "-!", "!-"}
	prim := []string{"1", "0", "$.n", "$.arr[1]", "$.obj.a", "$.zz", "abs(-2)", "length($.s)", "$.obj.b[0]", "(1)", "[3,4][1]", "$.arr.length", "$.z", "(1 + 1)", "$.obj['a']", "2.5", "'5'", "true"}
	for _, u := range un {
		for _, p := range prim {
			i++
			if !s.mine(i) {
				continue
			}
			s.once("$.C[?(@ == ("+u+p+"))]", d)
			s.once("$.C[?(@ == ("+u+p+" || 'none'))]", d)
			for _, op := range ops {
				s.once("$.C[?(@ == ("+u+p+op+"2))]", d)
				s.once("$.C[?(@ == (2"+op+u+p+"))]", d)
				s.once("$.C[?(@ == ("+u+p+op+"[2] || 'none'))]", d)
			}
		}
	}
}

type operand struct {
	text string
	i    int64
	f    float64
	real bool
	odd  bool // neither
}

func operands() []operand {
	var l []operand
	for _, n := range []int64{0, 1, -1, 2, -2, 3, -3, 7, 10, 4194303, 4194304, -4194305, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, 1<<32 - 1, 1 << 32, 3037000500, 1<<53 - 1, 1<<53 + 1, -(1<<53 + 1), 1 << 62, math.MaxInt64 - 1, math.MaxInt64, -math.MaxInt64, math.MinInt64} {
		t := strconv.FormatInt(n, 10)
		if n == math.MinInt64 {
			t = "(-9223372036854775807-1)"
		}
		l = append(l, operand{text: t, i: n, f: float64(n)})
	}
	for _, t := range []string{"0.0", "-0.0", "1.0", "-1.0", "0.5", "2.5", "-2.5", "0.1", "0.2", "3.0", "1.0e16", "9007199254740992.0", "9223372036854775808.0", "-9223372036854775808.0", "1.0e308", "-1.0e308", "2.2250738585072014e-308", "5.0e-324", "1.0e-5", "1.7976931348623157e308", "4.35"} {
		f, _ := strconv.ParseFloat(t, 64)
		l = append(l, operand{text: t, f: f, real: true})
	}
	inf := math.Inf(1)
	l = append(l, operand{text: "(1.0e308*10.0)", f: inf, real: true}, operand{text: "(-1.0e308*10.0)", f: -inf, real: true}, operand{text: "(1.0e308*10.0*0.0)", f: math.NaN(), real: true},
		operand{text: "true", i: 1, f: 1}, operand{text: "false"})
	for _, t := range []string{"null", "'1'", "[]", "[1]", "$.zz", "''"} {
		l = append(l, operand{text: t, odd: true})
	}
	return l
}

func floatOp(op string, x, y float64) float64 {
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "/":
		return x / y
	}
	return math.Mod(x, y)
}

func intOp(op string, x, y int64) int64 {
	switch {
	case op == "+":
		return x + y
	case op == "-":
		return x - y
	case op == "*":
		return x * y
	case y == 0:
		return 0
	case op == "/":
		return x / y
	}
	return x % y
}

// everyArith applies every arithmetic operator to every pair of awkward numbers.  Documents hold, among wrong
// answers, the one computed here, so that whatever the library makes of it can be seen.
func (s *shard) everyArith() {
	all := operands()
	i := 0
	for _, op := range []string{"+", "-", "*", "/", "%"} {
		for _, a := range all {
			i++
			if !s.mine(i) {
				continue
			}
			var names []int64
			for _, b := range all {
				if a.odd || b.odd {
					continue
				}
				if !a.real && !b.real {
					n := intOp(op, a.i, b.i)
					names = append(names, n, n+1, n-1, -n, intOp(op, b.i, a.i))
				}
			}
			d := s.newDoc(map[string]V{"O": keyed(decNames(names...)...)})
			for _, b := range all {
				e := "(" + a.text + op + " " + b.text + ")"
				if !a.real && !b.real && !a.odd && !b.odd {
					s.once("$.O["+e+"]", d)
					s.once("$.O[("+e+"+0)]", d)
					s.once("$.O[(-"+e+")]", d)
					continue
				}
				cands := []V{nil, "none", 0.0, 1.0}
				if !a.odd && !b.odd {
					z := floatOp(op, a.f, b.f)
					cands = append(cands, cleanFloats(z, floatOp(op, b.f, a.f), math.Nextafter(z, 0), math.Nextafter(z, 1e308), 1e308, -1e308)...)
				}
				d := s.newDoc(map[string]V{"C": cands})
				s.once("$.C[?(@ == "+e+")]", d)
				if a.real || b.real {
					s.once("$.C[?(@ < "+e+")]", d)
				} else {
					s.once("$.C[?(@ == ("+e+" || 'none'))]", d)
				}
				s.further(e, d, 1)
			}
		}
	}
}
