package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// probe finds out the value of an expression (of $ only): which of the candidates equal it and, for integers, which
// member of an object it names.

// sane leaves out strings whose comparison with a number is not specified.
func sane(c []V) []V {
	var out []V
	for _, v := range c {
		x := v
		if a, ok := x.([]V); ok && len(a) == 1 {
			x = a[0]
		}
		if t, ok := x.(string); ok && oddNumber(t) {
			continue
		}
		out = append(out, v)
	}
	return out
}

func oddNumber(t string) bool {
	u := strings.TrimSpace(t)
	_, err := strconv.ParseFloat(u, 64)
	if err == nil && u != t {
		return true
	}
	u = strings.TrimLeft(u, "+-")
	if u != "" && strings.ContainsAny(u[:1], "0123456789./") && strings.ContainsAny(u, "_xX") {
		return true
	}
	u = strings.ToLower(u)
	return u == "" && t != "" || u == "inf" || u == "infinity" || u == "nan"
}

func (s *shard) probe(e string, members map[string]V, cands []V, ints []int64) {
	doc := map[string]V{}
	for k, v := range members {
		doc[k] = v
	}
	doc["C"] = sane(cands)
	if ints != nil {
		doc["O"] = keyed(decNames(ints...)...)
	}
	d := s.newDoc(doc)
	s.once("$.C[?(@ == ("+e+"))]", d)
	if ints != nil {
		s.once("$.O[(("+e+")+0)]", d)
	}
}

// what may stand for values in probes of small expressions
var smallCands = []V{nil, true, false, -4.0, -3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 12.0, 0.5, 1.5, -0.5, -1.5, 2.5, "", "a", "b", "c", "1", "0", "ab", "nothing", []V{}, []V{1.0}, []V{"a"}, []V{1.0, 2.0}, map[string]V{}, map[string]V{"a": 1.0}}

// exprCases makes n random filters and probes.
func (s *shard) exprCases(ops []string, n int) {
	r := s.r
	doc := r.doc(docOpt{depth: 3, width: 4, small: r.p(70), leaf: 30, odd: pick(r, 0, 10)})
	for docSize(doc) > 60 || docSize(doc) < 3 {
		doc = r.doc(docOpt{depth: 3, width: 4, small: r.p(70), leaf: 30, odd: pick(r, 0, 10)})
	}
	top := map[string]V{"a": doc, "C": smallCands}
	ns := make([]int64, 0, 40)
	for i := int64(-12); i < 25; i++ {
		ns = append(ns, i)
	}
	top["O"] = keyed(decNames(ns...)...)
	nodes := nodesOf(doc, nil)
	top["N"] = nodes
	d := s.newDoc(top)
	g := r.exprGen(top)
	g.doc = top
	if r.p(15) {
		g.w = 25
	}
	g.ops = ops
	for i := 0; i < n; i++ {
		if r.p(50) {
			g.cur = nodes[r.n(len(nodes))]
			s.once("$.N[?("+g.cond(r.in(1, 3))+")]", d)
		} else {
			// about $ only: @ would be the candidate
			g.cur = top
			e := strings.ReplaceAll(g.val(r.in(1, 3)), "@", "$")
			s.once("$.C[?(@ == ("+e+"))]", d)
			s.once("$.O[(("+e+")+0)]", d)
			s.once("$.N[?("+e+")]", d)
		}
	}
}

func init() {
	props["C09"] = func(s *shard) {
		s.grammarList()
		s.everyText()
		for s.more() {
			s.grammarCases()
		}
	}
	props["C10"] = func(s *shard) {
		s.everyPair()
		for s.more() {
			s.structureCases()
			s.exprCases(allOps, 4)
		}
	}
	props["C11"] = func(s *shard) {
		s.everyString()
		for s.more() {
			s.textCases()
		}
	}
	props["C12"] = func(s *shard) {
		for s.more() {
			s.numberCases()
			if s.r.p(15) {
				s.lookalikes()
			}
		}
	}
	props["C13"] = func(s *shard) {
		s.pairs([]string{"==", "!="})
		for s.more() {
			s.compareCases([]string{"==", "!="})
			s.exprCases([]string{"==", "!=", "==", "&&"}, 3)
		}
	}
	props["C14"] = func(s *shard) {
		s.pairs([]string{"<", "<=", ">", ">=", "=="})
		for s.more() {
			s.compareCases([]string{"<", "<=", ">", ">="})
			s.exprCases([]string{"<", "<=", ">", ">="}, 3)
		}
	}
	props["C16"] = func(s *shard) {
		s.everyArith()
		for s.more() {
			s.arithCases()
			s.exprCases([]string{"+", "-", "*", "/", "%"}, 2)
		}
	}
	props["C17"] = func(s *shard) {
		s.everyAccess()
		for s.more() {
			s.accessCases()
		}
	}
	props["C18"] = func(s *shard) {
		s.everyCall([]string{"abs", "avg", "ceil", "floor", "max", "min", "prod", "sum", "to_number"})
		s.everyFnOf([]string{"abs", "avg", "ceil", "floor", "max", "min", "prod", "sum", "to_number"})
		s.everyArray([]string{"abs", "avg", "ceil", "floor", "max", "min", "prod", "sum", "to_number"})
		for s.more() {
			s.numFnCases()
		}
	}
	props["C19"] = func(s *shard) {
		s.everyCall([]string{"contains", "ends_with", "keys", "length", "starts_with", "tokenize"})
		s.everyFnOf([]string{"contains", "ends_with", "keys", "length", "starts_with", "tokenize"})
		s.everyArray([]string{"contains", "ends_with", "keys", "length", "starts_with", "tokenize"})
		for s.more() {
			s.strFnCases()
		}
	}
	props["C20"] = func(s *shard) {
		s.everyPattern()
		for s.more() {
			s.regexCases()
		}
	}
	props["C21"] = func(s *shard) {
		s.everyMember()
		for s.more() {
			s.memberCases()
			s.exprCases([]string{"==", "+", "&&", "||"}, 2)
		}
	}
}

// ---- truth ----

func (s *shard) truthCases() {
	r := s.r
	vals := []string{"null", "false", "true", "0", "1", "-1", "0.0", "0.5", "''", "'a'", "'0'", "'false'", "[]", "[0]", "[[]]", "$.m", "$.m.x", "$.arr[9]", "1/0", "1 % 0", "'a'+1", "-'a'", "$.obj", "$.arr", "$.e", "$.eo", "$.z", "$.f", "$.t", "$.zero", "$.nz", "$.one", "$.es", "$.s", "abs('x')", "to_number('z')", "$.s.x", "$.s[0]", "$.obj[0]", "1 < $.m", "$.m in [1]", "$.m =~ /a/", "$.m + 1", "[$.m]", "keys($.eo)", "length($.arr)", "to_number('NaN')", "-$.zero", "$.m.length", "$.arr[$.m]", "$.m[0]", "$.arr['a']", "foo", "null < 1", "max([])", "avg([])", "sum([])", "min('a',1)", "$.tiny", "$.m nin [1]", "9223372036854775807+1", "4294967296", "$.big", "$.big*$.big", "-$.big*$.big", "($.big*$.big - $.big*$.big)", "0 * ($.big*$.big)", "($.big*$.big) / ($.big*$.big)", "($.big*$.big) % 2", "1 % ($.big*$.big)", "-($.big*$.big - $.big*$.big)", "abs($.big*$.big*0)", "floor(1.0e300*1.0e300*0)", "1 / ($.big*$.big)"}
	doc := map[string]V{"arr": []V{1.0, 2.0}, "obj": map[string]V{"a": 1.0}, "e": []V{}, "eo": map[string]V{}, "z": nil, "f": false, "t": true, "zero": 0.0, "nz": math.Copysign(0, -1), "one": 1.0, "es": "", "s": "str", "tiny": 5e-324, "big": 1e300,
		"C": append([]V{"str", "none", 1e300, 5e-324, []V{0.0}, []V{1.0, 2.0}, map[string]V{"a": 1.0}, []V{[]V{}}, 4294967296.0}, smallCands...)}
	d := s.newDoc(doc)
	v := func() string { return vals[r.n(len(vals))] }
	one := s.newDoc(map[string]V{"m": pick[V](r, nil, false, 0.0, "", "x", 1.0, []V{}, map[string]V{})})
	_ = one
	for i := 0; i < 6; i++ {
		e := v()
		s.once("$.C[?("+e+")]", d)
		s.once("$.C[?(!"+pick(r, "", "!", " ! ! ")+"("+e+"))]", d)
		a, b := v(), v()
		op := pick(r, "&&", "||")
		s.once("$.C[?(@ == ("+a+" "+op+" "+b+"))]", d)
		s.once("$.C[?(@ == (("+a+" "+op+" "+b+") "+pick(r, "&&", "||")+" "+pick(r, "'none'", v())+"))]", d)
		s.once("$.C[?("+a+" "+op+" "+b+" "+pick(r, "&&", "||")+" "+v()+")]", d)
		// nothing in every position
		n := pick(r, "$.m", "$.m.x", "1/0", "$.arr[9]", "-'a'", "abs('x')")
		x := fmt.Sprintf(pick(r, "%s + 1", "1 - %s", "%s * %s", "%s < 1", "1 >= %s", "%s == 1", "%s != 1", "%s == null", "%s in [1]", "%s nin [1]", "1 in %s", "%s =~ /a/", "'a' =~ %s", "%s[0]", "$.arr[%s]", "$.obj[%s]", "-%s", "!%s", "%s.length", "[%s]", "[%s] == [null]", "%s in [%s]", "contains([1], %s)", "length(%s)", "%s == %s", "%s || 0", "%s && 1"), anys(n, 2)...)
		if k := strings.Index(x, "%!(EXTRA"); k >= 0 {
			x = x[:k]
		}
		x = pick(r, "(%s)", "!(%s)", "((%s) || 'none') == 'none'", "((%s) == false)", "(%s) == null", "((%s) < 1) == false")
		x = strings.ReplaceAll(x, "%s", v())
		s.once("$.C[?("+x+")]", d)
	}
}

func anys(x string, n int) []any {
	a := make([]any, n)
	for i := range a {
		a[i] = x
	}
	return a
}

// ---- grammar ----

var grammarDoc V = map[string]V{"a": []V{1.0, "x", map[string]V{"b": 2.0, "c": []V{}}, nil, []V{3.0, 4.0}}, "b": map[string]V{"a": "y", "b-c": 5.0, "0": 6.0, "length": 7.0}, "c": "str", "in": 8.0, "true": 9.0, "a-b": 10.0, "0": 11.0, "-1": 12.0, "": 13.0, "é": 14.0, "x": []V{[]V{1.0}, []V{2.0, 3.0}}}

var texts = []string{
	"", " ", "$", " $ ", "$$", "a", "@", "$a", "$ a", ".a", "$.", "$..", "$...", "$....a", "$. a", "$ .a", "$ . a", "$.. a", "$. .a", "$.a.", "$.a..", "$..a.b", "$.*", "$. *", "$..*", "$.**", "$.*.*", "$*", "$.a*", "$.a.*",
	"$[", "$]", "$[]", "$[ ]", "$[*]", "$[ * ]", "$[**]", "$[*", "$*]", "$[*]]", "$[[*]]", "$.[*]", "$.[a]", "$..[*]", "$.. [ * ]", "$...[*]", "$.[0]", "$.'a'", "$.\"a\"", "$..'a'", "$['a']", "$[\"a\"]", "$['a\"]", "$['a]", "$['a", "$[a']", "$[a]", "$[a b]", "$['a''b']", "$['a' 'b']",
	"$[0]", "$[-1]", "$[- 1]", "$[--1]", "$[+1]", "$[1.0]", "$[1e0]", "$[0x1]", "$[01]", "$[00]", "$[-0]", "$[1a]", "$[a1]", "$.0", "$.-1", "$.- 1", "$.1.0", "$.0a", "$.a0", "$.00", "$[9223372036854775807]", "$[9223372036854775808]", "$[-9223372036854775806]", "$[-9223372036854775807]", "$[-9223372036854775808]", "$[99999999999999999999]", "$.9223372036854775808", "$[0:9223372036854775808]", "$[::9223372036854775808]", "$[18446744073709551616]", "$[18446744073709551617]", "$[-18446744073709551615]",
	"$[a,b]", "$[a,]", "$[,a]", "$[a,,b]", "$[,]", "$[a b]", "$[a;b]", "$['a','b',0,-1,1:2]", "$[a,*]", "$[*,a]", "$[*,*]", "$[(1),a]", "$[a,(1)]", "$[?(1),a]", "$[a,?(1)]", "$[?(1),?(1)]", "$[(1),(1)]", "$[0,(1):2]", "$[a,1:2:3]", "$[1:2,3:4]", "$[1:2:3:4]", "$[:]", "$[::]", "$[:::]", "$[ : ]", "$[ : : ]", "$[1:]", "$[:1]", "$[1::]", "$[:1:]", "$[::1]", "$[1:2:]", "$[1::2]", "$[:1:2]", "$[1 : 2 : 3]", "$[a:b]", "$['a':'b']", "$[1:a]", "$[1:'a']", "$[1.0:2]", "$[*:1]", "$[1:*]", "$[-1:-2:-1]", "$[1 2]", "$[1:2 3]", "$[::a]", "$[?]", "$[?()]", "$[?(1]", "$[?1)]", "$[?1]", "$[?(1)]", "$[? (1)]", "$[ ?(1) ]", "$[?( 1 )]", "$[(1)]", "$[()]", "$[( 1 )]", "$[(1]", "$[1)]", "$[(1))]", "$[((1))]", "$.(1)", "$.()", "$.(1", "$.1)", "$..(1)", "$..[(1)]", "$..?(1)", "$.?(1)", "$?(1)", "$(1)", "$..[?(1)]", "$..[1:2]", "$..1", "$..[1]", "$..['a','b']", "$..(1)[0]",
	"$.a b", "$.a-b", "$.a - b", "$.-b", "$.a-", "$.a--b", "$.a_b", "$._", "$.é", "$.日本", "$.a.é", "$.a:", "$.a,b", "$.a;", "$.a$", "$.a@", "$.a!", "$.a%", "$.a+b", "$.a=b", "$.a#", "$.a\\b", "$.a/b", "$.a'b'", "$.a\"b\"", "$.in", "$.true", "$.null", "$.length", "$.a.length", "$.nin", "$.$", "$.@",
	"$\x00", "$.a\x00", "$.\x00", "$\n.a\n", "$\t.\ta\t", "$\r.\ra", "$\f.a", "$\v.a", "$\u00a0.a", "$.a\u00a0", "$.\ufeff", "\ufeff$", "$.a\u2028", "$\xff", "$.\xff", "$.a\xff", "$['\xff']", "$['\x00']", "$['\x1f']", "$['\x7f']", "$['\n']", "$['a\tb']",
	"$[?(@)]", "$[?(@.a)]", "$[?(@.)]", "$[?(@..a)]", "$[?(@.*)]", "$[?(@[*])]", "$[?(@[])]", "$[?(@[0:1])]", "$[?(@['a','b'])]", "$[?(@.a-b)]", "$[?(@.'a')]", "$[?(@.0)]", "$[?(@a)]", "$[?(@ a)]", "$[?($.a)]", "$[?($a)]", "$[?(a)]", "$[?(a b)]", "$[?(1 2)]", "$[?(1+)]", "$[?(+1)]", "$[?(1+ +1)]", "$[?(1 - -1)]", "$[?(1--1)]", "$[?(-1)]", "$[?(- 1)]", "$[?(--1)]", "$[?(!1)]", "$[?(!!1)]", "$[?(1!)]", "$[?(!)]", "$[?(-)]", "$[?(1&1)]", "$[?(1|1)]", "$[?(1&&1)]", "$[?(1&&)]", "$[?(&&1)]", "$[?(1||1)]", "$[?(1|| |1)]", "$[?(1=1)]", "$[?(1==1)]", "$[?(1===1)]", "$[?(1= =1)]", "$[?(1!=1)]", "$[?(1! =1)]", "$[?(1!==1)]", "$[?(1<>1)]", "$[?(1<1)]", "$[?(1< =1)]", "$[?(1=<1)]", "$[?(1<=1)]", "$[?(1=>1)]", "$[?(1>=1)]", "$[?(1**1)]", "$[?(1^1)]", "$[?(1//1)]", "$[?(1/1)]", "$[?(1%1)]", "$[?(~1)]", "$[?('a'~'a')]", "$[?('a'=~'a')]", "$[?('a'= ~'a')]", "$[?('a'~=1)]", "$[?(@=~/a/)]", "$[?(@.c=~/a/i)]", "$[?(@.c=~/a)]", "$[?(@.c=~/(/)]", "$[?(@.c=~/[/)]", "$[?(@.c=~/a/ && 1)]", "$[?(/a/)]", "$[?(/a/ == 1)]", "$[?(//)]", "$[?(1 ~ //)]", "$[?(@.zz=~/\\//)]", "$[?(@.zz=~/a\\)]", "$[?(@.zz=~/*/)]", "$[?(@.zz=~/a**/)]", "$[?(@.zz=~/a{2,1}/)]", "$[?(@.zz=~/\\8/)]",
	"$[?(1 in [1])]", "$[?(1 in[1])]", "$[?(1in [1])]", "$[?(1nin[1])]", "$[?([1]in[[1]])]", "$[?(in in [1])]", "$[?(in)]", "$[?(nin nin [nin])]", "$[?(1 nin [])]", "$[?(1 not in [])]", "$[?(1 in)]", "$[?(in [1])]", "$[?(@.in in [8])]", "$[?(1 In [1])]", "$[?(1 inx [1])]",
	"$[?([])]", "$[?([1])]", "$[?([1,])]", "$[?([,1])]", "$[?([1,2])]", "$[?([1 2])]", "$[?([1,[2]])]", "$[?([[]])]", "$[?([1)]", "$[?({})]", "$[?({'a':1})]", "$[?(f())]", "$[?(abs(1))]", "$[?(abs (1))]", "$[?(abs(1)]", "$[?(abs(1,))]", "$[?(abs(,1))]", "$[?(1(2))]", "$[?(@(2))]", "$[?('a'(2))]", "$[?((abs)(1))]", "$[?(@.abs(1))]", "$[?(abs(1)(2))]", "$[?(abs(1).a)]", "$[?(abs(1)[0])]", "$[?(true(1))]", "$[?(a.b)]", "$[?(a[0])]", "$[?(a.b(1))]", "$[?(1.a)]", "$[?(1.0.a)]", "$[?(1[0])]", "$[?('a'[0])]", "$[?('a'.length)]", "$[?([1].length)]", "$[?([1][0])]", "$[?((1).a)]", "$[?(null.a)]", "$[?(true.a)]", "$[?(/a/.b)]",
	"$[?(.5)]", "$[?(5.)]", "$[?(0.5)]", "$[?(05.5)]", "$[?(1.5.5)]", "$[?(1e5)]", "$[?(1.e5)]", "$[?(1.0e5)]", "$[?(1.0E5)]", "$[?(1.0e+5)]", "$[?(1.0e-5)]", "$[?(1.0e)]", "$[?(1.0e+)]", "$[?(1.0e 5)]", "$[?(1.0e5.5)]", "$[?(1.0e400)]", "$[?(1.0e-400)]", "$[?(1..5)]", "$[?(0x10)]", "$[?(1_000)]", "$[?(1a)]", "$[?(9223372036854775807)]", "$[?(9223372036854775808)]", "$[?(-9223372036854775808)]", "$[?(-9223372036854775807)]", "$[?(99999999999999999999.0)]", "$[?(00)]", "$[?(007)]",
	"$[?('a)]", "$[?(\"a)]", "$[?('a\")]", "$[?('\\x')]", "$[?('\\u00')]", "$[?('\\u0041')]", "$[?('\\uD83D\\uDE00')]", "$[?('\\uD83D')]", "$[?('\\'')]", "$[?('\\\"')]", "$[?(\"\\'\")]", "$[?('\\", "$[?('\n')]", "$[?('\\n')]", "$[?('\\/')]", "$[?('\\0')]", "$[?('\\a')]", "$[?('\\v')]", "$[?('\\U0041')]",
	"$[?(@)", "$[?(@]", "$[?(@))]", "$[?((@)]", "$[?(@)] ", "$[?(@)]x", "$[?(@)]]", "$[?(@)].a", "$[?(@)][0]", "$[?(@),]", "$[?(@),0]", "$[0,?(@)]", "$[?(?(@))]", "$[?(#)]", "$[?(`)]", "$[?(\\)]", "$[?(;)]", "$[?(:)]", "$[?(1,2)]", "$[?(1:2)]", "$[?(@.a.b.c.d[0]['x'].length)]", "$[(@.length-1)]", "$[(1,2)]", "$[(1:2)]", "$[(1):(2)]", "$[(1):(2):(1)]", "$[0:(1)]", "$[::(1)]", "$[:(1)]", "$[(1):]", "$[(1)::]", "$[('a')]", "$[('a'):1]", "$[?(1?2:3)]", "$[?(1;2)]", "$[?(a=1)]", "$[?(1)]\x00", "$.a\n", "\n$.a", "$//", "$.a//x", "$/*x*/.a", "$.a#c",
	"$['\\u0061']", "$['\\u00e9']", "$['\\x61']", "$[\"\\u0061\"]", "$['a\\']", "$['a\\\\']", "$['\\ud83d\\ude00']", "$['\\ude00']", "$['\\u12']", "$['\\u12g4']", "$['']", "$[\"\"]", "$['$']", "$[$]", "$[@]", "$['a']['b']", "$['a'].b", "$['a']b", "$['a']'b'", "$['a'] ['b']", "$[ 'a' ]", "$['a',]", "$[\"a\",'b',c]", "$[null]", "$[true]", "$[-a]", "$[a-b]", "$[a.b]", "$[a[0]]", "$[$.a]", "$[@.a]", "$[(@.a)]", "$[é]",
}

func (s *shard) grammarList() {
	d := s.newDoc(grammarDoc)
	arr := s.newDoc([]V{1.0, "a", []V{5.0, 6.0}, map[string]V{"a": 1.0}, nil})
	for i, t := range texts {
		if s.mine(i) {
			s.once(t, d)
			s.once(t, arr)
		}
	}
	// every short text over a small alphabet
	alpha := []string{"$", ".", "a", "[", "]", "0", "*", "(", ")", "-", ":", ",", "'", "?", " ", "@", "1", "..", "=", "/", "!"}
	i := 0
	for _, a := range alpha {
		for _, b := range alpha {
			for _, c := range alpha {
				i++
				if s.mine(i) {
					s.once("$"+a+b+c, d)
					if s.n%3 == 0 {
						s.once("$[?("+a+b+c+")]", d)
						s.once("$["+a+b+c+"]", d)
					}
				}
			}
		}
	}
}

func (s *shard) grammarCases() {
	r := s.r
	d := s.newDoc(grammarDoc)
	g := r.pathGen(grammarDoc, allSteps)
	g.w = pick(r, 0, 0, 20, 60)
	g.ex.w = g.w
	p := g.path(r.in(1, 3))
	if len(p) > 200 {
		return
	}
	s.once(p, d)
	for i := 0; i < 6; i++ {
		q := p
		for k := r.in(1, pick(r, 1, 1, 2, 3)); k > 0; k-- {
			q = r.mutate(q)
		}
		s.once(q, d)
	}
	// trailing garbage and truncation
	s.once(p+pick(r, " ", "\n", "x", "]", ")", ".", "$", "[0", "*", "..", "'", "a b", " a", ",", "0", "\x00", ":", "-", "@", "\\", "/"), d)
	if len(p) > 1 {
		s.once(p[:r.n(len(p))], d)
	}
}

var bits0 = []string{"$", "@", ".", "..", "[", "]", "(", ")", "?(", "*", ",", ":", "'", "\"", "-", "+", "/", "%", "!", "~", "=~", "=", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "&", "|", "a", "b", "in", " in ", "nin", "true", "null", "0", "1", "10", "1.5", "1e3", "1.0e3", " ", "\t", "\n", "\\", "/a/", "'a'", "[0]", ".a", "[*]", "9223372036854775807", "9223372036854775808", "9999999999999999999", "é", "\x00", "\x80", "#", "`", "{", "}", ";", "_", "\\u0041", "length", "abs(", "[?(", ")]", "(1)", "::", "00", "--", "!-"}

// mutate changes a text a little.
func (r *R) mutate(p string) string {
	if p == "" {
		return "$"
	}
	i := r.n(len(p) + 1)
	switch r.n(7) {
	case 0:
		j := i + r.in(1, 3)
		if j > len(p) {
			j = len(p)
		}
		return p[:i] + p[j:]
	case 1, 2, 3:
		return p[:i] + bits0[r.n(len(bits0))] + p[i:]
	case 4:
		j := i + 1
		if j > len(p) {
			j = len(p)
		}
		return p[:i] + bits0[r.n(len(bits0))] + p[j:]
	case 5:
		j := i + r.in(1, 4)
		if j > len(p) {
			j = len(p)
		}
		return p[:j] + p[i:j] + p[j:]
	default:
		if i >= len(p) {
			return p + string(rune(r.n(256)))
		}
		return p[:i] + string([]byte{byte(r.n(256))}) + p[i+1:]
	}
}

// ---- structure ----

type node struct {
	op   string
	k    []*node
	text string
}

var pri = map[string]int{"||": 0, "&&": 1, "==": 2, "!=": 2, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5, "in": 3, "nin": 3, "=~": 3, "~": 3}

func (n *node) print(r *R, min int, full int, ws int) string {
	t := ""
	w := func() string { return r.ws(ws) }
	switch {
	case n.op == "":
		t = n.text
		if r.p(full) {
			t = "(" + w() + t + w() + ")"
		}
		return t
	case n.op == "u-" || n.op == "u!":
		k := n.k[0].print(r, 9, full, ws)
		t = n.op[1:] + w() + k
		if r.p(full) {
			t = "(" + t + ")"
		}
		return t
	case n.op == "[]":
		var el []string
		for _, k := range n.k {
			el = append(el, k.print(r, 0, full, ws))
		}
		return "[" + w() + strings.Join(el, w()+","+w()) + w() + "]"
	case n.op == "call":
		var el []string
		for _, k := range n.k {
			el = append(el, k.print(r, 0, full, ws))
		}
		return n.text + w() + "(" + w() + strings.Join(el, w()+","+w()) + w() + ")"
	case n.op == "idx":
		return n.k[0].print(r, 10, full, ws) + w() + "[" + w() + n.k[1].print(r, 0, full, ws) + w() + "]"
	case n.op == "dot":
		return n.k[0].print(r, 10, full, ws) + w() + "." + w() + n.text
	default:
		p := pri[n.op]
		a, b := n.k[0].print(r, p, full, ws), n.k[1].print(r, p+1, full, ws)
		op := n.op
		if op == "in" || op == "nin" {
			op = " " + op + " "
		}
		sep := w()
		if op == "/" && sep == "" && strings.HasPrefix(b, "/") {
			sep = " "
		}
		t = a + w() + op + sep + b
		if p < min || r.p(full) {
			t = "(" + w() + t + w() + ")"
		}
		return t
	}
}

func (r *R) node(depth int, mark *int) *node {
	if depth <= 0 || r.p(12) {
		*mark++
		return &node{text: pick(r, strconv.Itoa(r.in(0, 9)), strconv.Itoa(r.in(1, 5)), strconv.Itoa(*mark+1), "$.n", "$.p", "$.arr[1]", "$.obj.a", "$.arr.length", "true", "false", "null", "'a'", "1.5", "$.zz", "$.s", "2.0")}
	}
	switch r.n(12) {
	case 0:
		k := r.node(depth-1, mark)
		if pri[k.op] != 0 || k.op == "||" {
			return &node{op: "u-", k: []*node{paren(k)}}
		}
		return &node{op: "u-", k: []*node{k}}
	case 1:
		k := r.node(depth-1, mark)
		return &node{op: "u!", k: []*node{paren(k)}}
	case 2:
		if r.p(40) {
			a := &node{op: "[]", k: []*node{r.node(depth-2, mark), r.node(depth-2, mark)}}
			return &node{op: pick(r, "in", "nin"), k: []*node{r.node(depth-1, mark), a}}
		}
		if r.p(40) {
			return &node{op: "idx", k: []*node{pick(r, &node{text: "$.arr"}, &node{text: "$.obj"}, &node{op: "[]", k: []*node{r.node(0, mark), r.node(0, mark)}}), r.node(depth-1, mark)}}
		}
		return &node{op: "call", text: pick(r, "abs", "floor", "ceil", "to_number"), k: []*node{r.node(depth-1, mark)}}
	default:
		op := pick(r, "+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "+", "-", "*")
		return &node{op: op, k: []*node{r.node(depth-1, mark), r.node(depth-1, mark)}}
	}
}

// paren parenthesises an operator that could not stand after a unary one.
func paren(k *node) *node {
	if _, ok := pri[k.op]; ok {
		return k // print does it: 9 is above every priority
	}
	return k
}

func (s *shard) structureCases() {
	r := s.r
	doc := map[string]V{"n": float64(r.in(-3, 7)), "p": float64(r.in(1, 5)), "s": pick(r, "a", "5", ""), "arr": []V{3.0, 2.0, 5.0}, "obj": map[string]V{"a": 4.0, "b": 7.0, "1": 6.0}, "C": smallCands}
	ns := []int64{}
	for i := int64(-40); i < 80; i++ {
		ns = append(ns, i)
	}
	doc["O"] = keyed(decNames(ns...)...)
	d := s.newDoc(doc)
	for i := 0; i < 4; i++ {
		m := 0
		n := r.node(r.in(1, 4), &m)
		for _, q := range [][2]int{{0, 0}, {100, 0}, {20, 30}} {
			e := n.print(r, 0, q[0], q[1])
			if len(e) > 250 {
				continue
			}
			s.once("$.O[(("+e+")+0)]", d)
			s.once("$.C[?(@ == ("+e+"))]", d)
		}
	}
	// flat chains of small integers
	for i := 0; i < 4; i++ {
		e := strconv.Itoa(r.in(1, 9))
		ops := pick(r, []string{"+", "-", "*", "/", "%"}, []string{"+", "-"}, []string{"*", "/", "%"}, []string{"<", "==", "+", "-"}, []string{"&&", "||", "==", "<"}, allOps, allOps, []string{"!=", "=="}, []string{"<", "<=", ">", ">="})
		for k := r.in(2, 6); k > 0; k-- {
			x := strconv.Itoa(r.in(0, 9))
			if r.p(15) {
				x = "-" + x
			} else if r.p(8) {
				x = "!" + x
			}
			sp := pick(r, "", " ")
			e += sp + ops[r.n(len(ops))] + sp + x
		}
		s.once("$.O[(("+e+")+0)]", d)
		s.once("$.C[?(@ == ("+e+"))]", d)
	}
	// postfix under unary operators, constants as names and so on
	s.once("$.C[?(@ == ("+pick(r, "-$.arr[0]", "-$.obj.a", "!$.arr[0]", "!$.obj.zz", "-abs(-2)", "-abs(2)", "!length('')", "- $.obj['b']", "-[3,4][1]", "![][0]", "--$.arr[0]", "-(1)[0]", "!true.a", "-$.arr.length", "!$.zz.a.b", "-1 + 2", "-2*3", "-2-3", "!1 == false", "!(1 == false)", "-1 < 0", "!0 + 1", "!0 && 0", "-$.n", "-$.p*2", "1 - -1", "1-1-1", "2-1+1", "8/4/2", "8/4*2", "7%4%2", "2+3*4", "(2+3)*4", "1 < 2 == true", "1 == 1 < 2", "3 > 2 > 1", "1 in [1] == true", "true == 1 in [1]", "1 + 1 in [2]", "1 in [1] && 0", "'a' =~ /a/ == true", "'ab' ~ 'b' && 2", "1 || 0 && 0", "(1 || 0) && 0", "0 && 0 || 1", "0 && (0 || 1)", "true.x", "null == null", "in", "$.obj.in", "1 == 1 == 1", "2 == 2 == 2", "1 != 1 != 1", "!1 - 1", "-'1'", "-true", "1 - - - 1")+"))]", d)
}

// ---- texts ----

func (s *shard) textCases() {
	r := s.r
	t := r.word()
	if r.p(50) {
		t = ""
		for n := r.in(0, 6); n > 0; n-- {
			t += string(r.rune())
		}
	}
	sim := r.similar(t)
	sim = append(sim, r.lookalike(t)...)
	ks := append([]string{t}, sim...)
	d := s.newDoc(keyed(ks...))
	cands := make([]V, 0, len(ks)+3)
	for _, k := range ks {
		cands = append(cands, k)
	}
	dc := s.newDoc(cands)
	for i := 0; i < 3; i++ {
		s.once("$["+r.quote(t)+"]", d)
		s.once("$["+r.quote(t)+","+r.quote(sim[r.n(len(sim))])+"]", d)
		s.once("$[?(@ == "+r.quote(t)+")]", dc)
		s.once("$[("+r.quote(t)+")]", d)
		s.once("$[?($["+strconv.Itoa(r.n(len(ks)))+"] == "+r.quote(t)+")]", dc)
	}
	if isID(t, true) {
		s.once("$."+t, d)
		s.once("$["+t+"]", d)
		s.once("$.."+t, d)
	}
	if isID(t, false) {
		s.once("$[?($."+t+")]", d)
		s.once("$[("+t+")]", d)
	}
	// literals made of pieces, some of them wrong; the members are what a reader might take them for
	pieces := []string{"a", "\\\\", "\\/", "/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\'", "\\\"", "\\u0041", "\\u00e9", "\\u0000", "\\u001f", "\\u20ac", "\\uD83D\\uDE00", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\ud83d\\ud83d\\ude00", "\\ude00\\ud83d", "\\ud83d\\u0041", "\\uD83Dx", "\\uFFFF", "\\uFFFD", "\\uDBFF\\uDFFF", "\\uD800\\uDC00", "\\uD7FF", "\\uE000", "é", "日", "😀", "'", "\"", " ", "x"}
	wrong := []string{"\\x", "\\0", "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\U0041", "\\v", "\\a", "\\ ", "\n", "\t", "\x00", "\x1f", "\\\n", "\\u-123", "\\u+123", "\\e", "\\N", "\\é", "\\u{41}", "\\B", "\\T"}
	odd := []string{"\xff", "\x80", "\xc3", "\xed\xa0\x80", "\xf0\x9f", "\x7f", "\u0080", "\u2028"}
	q := pick(r, "'", "\"")
	lit := ""
	for n := r.in(1, 4); n > 0; n-- {
		switch r.n(12) {
		case 0:
			lit += wrong[r.n(len(wrong))]
		case 1:
			lit += odd[r.n(len(odd))]
		default:
			lit += pieces[r.n(len(pieces))]
		}
	}
	ks = append(r.similar(lit), lit)
	ks = append(ks, readings(lit)...)
	d = s.newDoc(keyed(ks...))
	cands = cands[:0]
	for _, k := range ks {
		cands = append(cands, k)
	}
	s.once("$["+q+lit+q+"]", d)
	s.once("$[?(@ == "+q+lit+q+")]", s.newDoc(cands))
	s.once("$.a["+q+lit+q+"]", s.newDoc(map[string]V{"a": d.v}))
}

// lookalike gives other texts that a wrong reading might produce.
func (r *R) lookalike(t string) []string {
	var out []string
	b := []byte(t)
	if len(b) > 0 {
		c := append([]byte{}, b...)
		c[r.n(len(c))] ^= 1 << r.n(7)
		out = append(out, strings.ToValidUTF8(string(c), "?"))
	}
	rs := []rune(t)
	if len(rs) > 0 {
		i := r.n(len(rs))
		c := append([]rune{}, rs...)
		c[i] = 0xfffd
		out = append(out, string(c))
		c[i] = rs[i] & 0xffff
		out = append(out, string(c))
		c[i] = rs[i] & 0xff
		out = append(out, string(c), string(rs[:i])+string(rs[i+1:]))
		c[i] = rs[i] | 0x20
		out = append(out, string(c))
	}
	var x []string
	for _, o := range out {
		if o != t {
			x = append(x, o)
		}
	}
	return append(x, "zz")
}

// readings gives what the literal's contents may be taken for.
func readings(lit string) []string {
	var out []string
	for _, q := range []string{`"`, "`"} {
		if u, err := strconv.Unquote(q + lit + q); err == nil {
			out = append(out, u)
		}
	}
	rep := []string{"\\\\", "\\", "\\/", "/", "\\b", "\b", "\\f", "\f", "\\n", "\n", "\\r", "\r", "\\t", "\t", "\\'", "'", "\\\"", "\"", "\\u0041", "A", "\\u00e9", "é", "\\u0000", "\x00", "\\u001f", "\x1f", "\\u20ac", "€", "\\uD83D\\uDE00", "😀", "\\ud83d\\ude00", "😀", "\\uDBFF\\uDFFF", "\U0010ffff", "\\uD800\\uDC00", "\U00010000", "\\ud83d", "\ufffd", "\\ude00", "\ufffd", "\\uFFFF", "\uffff", "\\uFFFD", "\ufffd", "\\uD7FF", "\ud7ff", "\\uE000", "\ue000", "\\uD83D", "\ufffd", "\\x", "x", "\\0", "0", "\\v", "\v", "\\a", "\a", "\\ ", " "}
	out = append(out, strings.NewReplacer(rep...).Replace(lit))
	out = append(out, strings.ReplaceAll(lit, "\\", ""))
	return out
}

// ---- numbers ----

func (s *shard) numberCases() {
	r := s.r
	n := r.int()
	if r.p(40) {
		n = ints[r.n(len(ints))] + int64(r.in(-1, 1))
	}
	if n < 0 {
		n = -n
	}
	if n < 0 {
		n = math.MaxInt64
	}
	near := []int64{n, -n, n ^ 1, n >> 1, int64(float64(n>>1)) << 1, n & 0xffffffff, int64(int32(n)), n & 0x7fffff, n & 0x3fffff, n & 0xffffff, int64(int32(n<<8)) >> 8, int64(int32(n<<9)) >> 9, 0, 1, -1, int64(uint32(n)), n % 1000}
	if n < math.MaxInt64 {
		near = append(near, n+1)
	}
	near = append(near, n-1)
	obj := keyed(decNames(near...)...)
	d := s.newDoc(map[string]V{"o": obj, "a": flat(12)})
	t := strconv.FormatInt(n, 10)
	sg := pick(r, "", "", "-", "- ")
	z := pick(r, "", "", "0", "000")
	s.once("$.o["+sg+z+t+"]", d)
	s.once("$.o."+sg+t, d)
	s.once("$.o["+sg+t+",0,1,"+t+"]", d)
	s.once("$..["+sg+t+"]", d)
	s.once("$.o[("+sg+z+t+")]", d)
	s.once("$.o[("+sg+t+" + 0)]", d)
	s.once("$.a["+sg+t+"]", d)
	s.once("$.a["+pick(r, sg+t+":", ":"+sg+t, "::"+sg+t, sg+t+"::-1", ":"+sg+t+":-1", sg+t+":"+sg+t, "::-"+t)+"]", d)
	// too large
	big := pick(r, "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617", "92233720368547758070", "99999999999999999999999", t+"0000000000000000000", "1"+strings.Repeat("0", 19), "27670116110564327424")
	s.once(pick(r, "$.o["+big+"]", "$.o."+big, "$.o[-"+big+"]", "$.o[("+big+")]", "$.a["+big+":]", "$.a[:-"+big+"]", "$.o[0,"+big+"]", "$[?("+big+")]", "$[?("+big+" == 1)]", "$[?("+big+".0 > 1)]", "$.a[(-"+big+")]", "$..["+big+"]"), d)
	if r.p(20) {
		s.once(pick(r, "$.o[-9223372036854775808]", "$.o[-9223372036854775807]", "$.o[-9223372036854775806]", "$.o[(-9223372036854775807)]", "$.o[(-9223372036854775807-1)]", "$.o[(-9223372036854775808)]", "$.o[9223372036854775807]"), s.newDoc(map[string]V{"o": keyed("9223372036854775807", "-9223372036854775807", "-9223372036854775806", "-9223372036854775808", "0", "-1")}))
	}
	// reals
	f := math.Abs(r.float())
	lit := realText(r, f)
	if r.p(20) {
		// many digits, about half way between doubles
		lit = strconv.FormatFloat(f, 'f', -1, 64)
		if len(lit) > 40 {
			lit = "1.5"
		}
		if !strings.Contains(lit, ".") {
			lit += "."
		}
		lit += strings.Repeat(pick(r, "0", "5", "9", "49"), r.n(12)) + pick(r, "", "1", "5")
	}
	if r.p(15) {
		lit = fmt.Sprintf("%d.%d%s%d", r.n(100), r.n(100000), pick(r, "e", "E", "e+", "e-", "E-"), r.n(pick(r, 5, 30, 330)))
	}
	g := f
	if x, err := strconv.ParseFloat(lit, 64); err == nil {
		g = x
	}
	cands := []V{f, g, -g, math.Nextafter(g, 0), math.Nextafter(g, math.MaxFloat64), math.Trunc(g), float64(float32(g)), 0.0, 1.0}
	for i, c := range cands {
		if x := c.(float64); math.IsInf(x, 0) {
			cands[i] = 2.0
		}
	}
	dc := s.newDoc(cands)
	s.once("$[?(@ == "+lit+")]", dc)
	s.once("$[?(@ < "+lit+")]", dc)
	s.once("$[?(-@ == -"+lit+")]", dc)
	s.once("$[?(@ in ["+lit+","+strconv.Itoa(r.n(3))+"])]", dc)
	if r.p(10) {
		s.once("$.o[("+lit+")]", d)
		s.once("$.a[("+strconv.Itoa(r.n(14))+".0)]", d)
	}
	s.once("$[?(@ == "+t+")]", s.newDoc([]V{float64(n), math.Nextafter(float64(n), 0), math.Nextafter(float64(n), 1e300), float64(n) + 1, float64(int32(n)), t, 0.0}))
	// many constants
	if r.p(4) {
		s.manyConstants()
	}
}

func (s *shard) manyConstants() {
	r := s.r
	n := pick(r, 20, 200, 600)
	// distinct constants of several kinds, one of which is asked for among near misses
	base := pick(r, int64(0), 1<<22-int64(n)/2, 1<<23-int64(n)/2, 1<<31-int64(n)/2, 1<<53, 1<<62, -int64(n)/2)
	el := make([]string, n)
	vals := make([]V, 0, n)
	for i := range el {
		switch i % 5 {
		case 0, 1:
			el[i] = strconv.FormatInt(base+int64(i), 10)
			vals = append(vals, float64(base+int64(i)))
		case 2:
			el[i] = "'s" + strconv.Itoa(i) + "'"
			vals = append(vals, "s"+strconv.Itoa(i))
		case 3:
			el[i] = strconv.Itoa(i) + ".25"
			vals = append(vals, float64(i)+0.25)
		default:
			el[i] = "'" + strconv.Itoa(i) + "'"
			vals = append(vals, strconv.Itoa(i))
		}
	}
	if n > 60 { // some of them
		var some []V
		for i := r.n(n / 50); i < n; i += r.in(1, 2*n/50) {
			some = append(some, vals[i])
		}
		vals = append(some, vals[n-1], vals[n-2], vals[0])
	}
	d := s.newDoc(append(vals[:len(vals):len(vals)], "s1", "x", -5.5, 1e9, nil))
	s.once("$[?(@ in ["+strings.Join(el, ",")+"])]", d)
	k := r.n(n)
	s.once("$[?(@ == ["+strings.Join(el, ",")+"]["+strconv.Itoa(k)+"])]", d)
	obj := map[string]V{}
	for i := range el {
		obj[strconv.FormatInt(base+int64(i), 10)] = float64(i)
		obj["s"+strconv.Itoa(i)] = -float64(i)
	}
	var un []string
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			un = append(un, strconv.FormatInt(base+int64(r.n(n)), 10))
		} else {
			un = append(un, "'s"+strconv.Itoa(r.n(n))+"'")
		}
	}
	s.once("$["+strings.Join(un, ",")+"]", s.newDoc(obj))
}

// ---- comparison ----

var compPool = []V{nil, false, true, 0.0, math.Copysign(0, -1), 1.0, -1.0, 2.0, 0.5, 1.5, -1.5, 10.0, 9.0, 1e21, 1e-7, 0.1, 9007199254740992.0, 9007199254740994.0, 9223372036854775807.0, 1e308, 5e-324, 255.0, 100.0,
	"", "0", "1", "-1", "2", "10", "9", "1.0", "1.5", "01", "+1", "1e0", "1e1", "-0", "0.5", ".5", "true", "false", "null", "a", "b", "ab", "A", "é", "z", "\uffff", "\U00010000", "x", "9007199254740993", "9223372036854775807", "undefined", "[object Object]", "1,2", "a\x00", "aa", "0.1", "100000000000000000000", "010", "-010", "0b1", 8.0,
	[]V{}, []V{0.0}, []V{1.0}, []V{nil}, []V{false}, []V{true}, []V{""}, []V{"1"}, []V{"a"}, []V{1.0, 2.0}, []V{2.0, 1.0}, []V{1.0, "2"}, []V{[]V{}}, []V{[]V{1.0}}, []V{[]V{[]V{"a"}}}, []V{map[string]V{}}, []V{1.5}, []V{10.0}, []V{nil, nil}, []V{255.0}, []V{1e21}, []V{0.1}, []V{[]V{}, []V{}}, []V{-1.0},
	map[string]V{}, map[string]V{"a": 1.0}, map[string]V{"a": "1"}, map[string]V{"b": 1.0}, map[string]V{"a": nil}, map[string]V{"a": 1.0, "b": 2.0}, map[string]V{"a": 2.0, "b": 1.0}, map[string]V{"a": []V{1.0}}, map[string]V{"a": map[string]V{"b": true}}, map[string]V{"a": map[string]V{"b": 1.0}}}

// litOf writes a value as an expression, if it can be written.
func litOf(r *R, v V) (string, bool) {
	switch v := v.(type) {
	case nil:
		return "null", true
	case bool:
		return strconv.FormatBool(v), true
	case string:
		return r.quote(v), true
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1<<62 && r.p(70) {
			return strconv.FormatInt(int64(v), 10), true
		}
		if v < 0 || math.Signbit(v) {
			return "-" + realText(r, -v), true
		}
		return realText(r, v), true
	case []V:
		var el []string
		for _, x := range v {
			t, ok := litOf(r, x)
			if !ok {
				return "", false
			}
			el = append(el, t)
		}
		return "[" + strings.Join(el, ",") + "]", true
	}
	return "", false
}

// pairs compares every value of compPool with every other, from the document and as literals.
func (s *shard) pairs(ops []string) {
	r := s.r
	pool := s.newDoc(map[string]V{"c": compPool})
	i := 0
	for j, v := range compPool {
		for _, op := range ops {
			i++
			if !s.mine(i) {
				continue
			}
			s.once(fmt.Sprintf("$.c[?(@ %s $.c[%d])]", op, j), pool)
			s.once(fmt.Sprintf("$.c[?($.c[%d] %s @)]", j, op), pool)
			if l, ok := litOf(r, v); ok {
				s.once(fmt.Sprintf("$.c[?(@ %s %s)]", op, l), pool)
				s.once(fmt.Sprintf("$.c[?(%s %s @)]", l, op), pool)
				s.once(fmt.Sprintf("$.c[?([@] %s %s)]", op, l), pool)
			}
			s.once(fmt.Sprintf("$.c[?([@, 1] %s [$.c[%d], 1])]", op, j), pool)
		}
	}
	for _, op := range ops {
		for _, n := range []string{"$.zz", "1/0", "foo", "@.zz", "keys(@)", "(1.0e300*1.0e300)", "-(1.0e300*1.0e300)", "(1.0e300*1.0e300*0)", "[1.0e300*1.0e300*0]", "[1.0e300*1.0e300]", "9223372036854775807", "(-9223372036854775807-1)", "9007199254740993", "(9007199254740992+1.0)"} {
			s.once("$.c[?(@ "+op+" "+n+")]", pool)
			s.once("$.c[?("+n+" "+op+" @)]", pool)
			s.once("$.c[?(("+n+" "+op+" @) == "+pick(r, "true", "false", "null")+")]", pool)
		}
	}
}

func (r *R) comparable() V {
	switch r.n(9) {
	case 0, 1, 2:
		return r.float()
	case 3, 4:
		return r.str()
	case 5:
		return compPool[r.n(len(compPool))]
	case 6:
		return strconv.FormatInt(r.int(), 10)
	case 7:
		f := r.float()
		if f != 0 && (math.Abs(f) < 1e-5 || math.Abs(f) > 1e20) {
			f = 7.25
		}
		return strconv.FormatFloat(f, pick(r, byte('f'), 'g', 'e'), -1, 64)
	default:
		return r.doc(docOpt{depth: 2, width: 3, small: true, leaf: 20})
	}
}

// jsText is the text of a number as JavaScript has it.
func jsText(f float64) string {
	if f == 0 {
		return "0"
	}
	if a := math.Abs(f); a >= 1e-6 && a < 1e21 {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return strings.Replace(strconv.FormatFloat(f, 'e', -1, 64), "e-0", "e-", 1)
}

// twist changes a value a little.
func (r *R) twist(v V) V {
	switch v := v.(type) {
	case float64:
		return pick[V](r, v, -v, v+1, math.Nextafter(v, 1e300), math.Nextafter(v, -1e300), math.Trunc(v), strconv.FormatFloat(v, 'f', -1, 64), []V{v}, v != 0)
	case string:
		return pick[V](r, v, v+"a", v+" ", strings.ToUpper(v), v+"0", "0"+v, v+".0", []V{v}, strings.Repeat(v, 2), v+"\x00", strings.TrimSuffix(v, "0"))
	case []V:
		c := append([]V{}, v...)
		if len(c) == 0 {
			return pick[V](r, []V{nil}, "", 0.0, false, map[string]V{}, []V{})
		}
		i := r.n(len(c))
		switch r.n(5) {
		case 0:
			c[i] = r.twist(c[i])
		case 1:
			c = append(c, nil)
		case 2:
			c = c[1:]
		case 3:
			c[0], c[i] = c[i], c[0]
		}
		return c
	case map[string]V:
		c := map[string]V{}
		for k, x := range v {
			c[k] = x
		}
		ks := sortedKeys(c)
		if len(ks) == 0 {
			return pick[V](r, map[string]V{"a": nil}, []V{}, c)
		}
		k := ks[r.n(len(ks))]
		switch r.n(4) {
		case 0:
			c[k] = r.twist(c[k])
		case 1:
			c["new"] = nil
		case 2:
			c[k+"x"] = c[k]
			delete(c, k)
		}
		return c
	case bool:
		return pick[V](r, v, !v, 1.0, 0.0, "1", "true")
	default:
		return pick[V](r, nil, 0.0, "", false, []V{}, "null")
	}
}

func (s *shard) compareCases(ops []string) {
	r := s.r
	// pairs in the document
	var ps []V
	for i := 0; i < 24; i++ {
		a := r.comparable()
		b := r.twist(a)
		if r.p(25) {
			b = r.comparable()
		}
		if r.p(10) {
			f := r.float()
			if r.p(50) {
				f = math.Ldexp(1, r.in(-1074, 1023))
			}
			a, b = []V{f}, pick[V](r, jsText(f), jsText(f), strconv.FormatFloat(f, 'e', -1, 64), fmt.Sprint(f))
		}
		if x := sane([]V{a, b}); len(x) == 2 || r.p(2) {
			ps = append(ps, []V{a, b})
		}
	}
	d := s.newDoc(ps)
	for _, op := range ops {
		s.once("$[?(@[0] "+op+" @[1])]", d)
		s.once("$[?(@[1] "+op+" @[0])]", d)
	}
	op := ops[r.n(len(ops))]
	s.once("$[?((@[0] "+op+" @[1]) != (@[1] "+op+" @[0]))]", d)
	// integers: literals, lengths and arithmetic against doubles and numeric strings
	n := r.int()
	t := strconv.FormatInt(n, 10)
	if n == math.MinInt64 {
		t = "(-9223372036854775807-1)"
	}
	var c []V
	for i := 0; i < 3; i++ {
		c = append(c, float64(n+int64(r.in(-2, 2))), strconv.FormatInt(n+int64(r.in(-2, 2)), 10), float64(n)*1.5, math.Nextafter(float64(n), 1e300*float64(r.in(-1, 1))))
	}
	c = append(c, strconv.FormatInt(n, 10)+".0", strconv.FormatInt(n, 10)+".5", true, false, nil, "", []V{float64(n)}, []V{strconv.FormatInt(n, 10)})
	dc := s.newDoc(c)
	for i := 0; i < 2; i++ {
		op := ops[r.n(len(ops))]
		s.once("$[?(@ "+op+" "+t+")]", dc)
		s.once("$[?("+t+" "+op+" @)]", dc)
	}
	if n < math.MaxInt64-5 && n > math.MinInt64+5 {
		m := n + int64(r.in(-2, 2))
		for _, op := range ops {
			s.once(fmt.Sprintf("$[?(%d %s %d)]", n, op, m), s.newDoc([]V{1.0}))
		}
	}
	s.once(fmt.Sprintf("$[?(@.length %s %d)]", op, r.n(5)), s.newDoc([]V{flat(r.n(5)), flat(r.n(5)), "abc", keyed("a", "b"), 3.0, nil}))
	// literals
	a, b := r.comparable(), r.comparable()
	if r.p(70) {
		b = r.twist(a)
	}
	la, ok1 := litOf(r, a)
	lb, ok2 := litOf(r, b)
	if ok1 && ok2 && len(la) < 100 && len(lb) < 100 {
		op := ops[r.n(len(ops))]
		s.once("$[?("+la+" "+op+" "+lb+")]", s.newDoc([]V{1.0}))
		s.once("$[?("+lb+" "+op+" "+la+")]", s.newDoc([]V{1.0}))
	}
	if s.r.p(20) {
		x := r.str()
		s.once("$[?(@ "+op+" "+r.quote(x)+")]", s.newDoc([]V{x, x + "a", x[:len(x)/2], strings.ToUpper(x), "", "a", "~", "\uffff", "\U00010000", "é", "e\u0301", 1.0}))
	}
}

// ---- arithmetic ----

func (s *shard) arithCases() {
	r := s.r
	a, b := r.int(), r.int()
	if r.p(30) {
		b = int64(r.in(-4, 4))
	}
	if r.p(10) {
		a = pick[int64](r, math.MinInt64, math.MaxInt64, math.MinInt64+1)
	}
	lit := func(n int64) string {
		if n == math.MinInt64 {
			return "(-9223372036854775807-1)"
		}
		return strconv.FormatInt(n, 10)
	}
	la, lb := lit(a), lit(b)
	if strings.HasPrefix(lb, "-") {
		lb = pick(r, "("+lb+")", lb)
	}
	op := pick(r, "+", "-", "*", "/", "%")
	var res int64
	hint := []int64{a, b, 0, 1, -1}
	switch op {
	case "+":
		res = a + b
		hint = append(hint, a-b)
	case "-":
		res = a - b
		hint = append(hint, b-a, a+b)
	case "*":
		res = a * b
	case "/":
		if b != 0 {
			res = a / b
			if a%b != 0 {
				hint = append(hint, res-1, res+1)
			}
		}
		if a != 0 {
			hint = append(hint, b/a)
		}
	case "%":
		if b != 0 {
			res = a % b
			hint = append(hint, -res, res+b, res-b)
		}
		if a != 0 {
			hint = append(hint, b%a)
		}
	}
	hint = append(hint, res, res+1, res-1, -res, int64(int32(res)))
	if x := float64(res); x < 9e18 && x > -9e18 {
		hint = append(hint, int64(x))
	}
	sp := pick(r, "", " ")
	obj := keyed(decNames(hint...)...)
	if len(obj) > 0 {
		d := s.newDoc(map[string]V{"O": obj, "x": float64(a), "y": float64(b)})
		s.once("$.O[("+la+sp+op+sp+lb+")]", d)
		s.once("$.O[(-("+la+sp+op+sp+lb+"))]", d)
	}
	if r.p(30) {
		s.once("$[?(("+la+op+sp+lb+") "+pick(r, "==", "<", ">", "!=")+" "+lit(res)+")]", s.newDoc([]V{1.0}))
	}
	// doubles, from the document
	x, y := r.float(), r.float()
	if r.p(30) {
		x = float64(a)
	}
	if r.p(30) {
		y = float64(r.in(-4, 4))
	}
	var z float64
	var z2 float64
	fop := func(op string, x, y float64) float64 {
		switch op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "/":
			return x / y
		default:
			return math.Mod(x, y)
		}
	}
	z, z2 = fop(op, x, y), fop(op, y, x)
	cands := cleanFloats(z, z2, -z, math.Nextafter(z, 1e308), math.Nextafter(z, -1e308), x, y, 0, 1, -1, math.Trunc(z), float64(float32(z)), math.Floor(z))
	cands = append(cands, nil, true, false, "")
	d := s.newDoc(map[string]V{"x": x, "y": y, "C": cands, "t": true, "f": false})
	s.once("$.C[?(@ == ($.x "+op+" $.y))]", d)
	s.once("$.C[?(@ == -($.x "+op+" $.y))]", d)
	if r.p(30) {
		s.once("$.C[?(@ < ($.x "+op+" $.y))]", d)
		s.once("$.C[?((@ - @) "+op+" $.y == 0 * $.x)]", d)
	}
	// an integer and a double
	n := a
	if r.p(50) {
		n = int64(r.in(-9, 9))
	}
	z, z2 = fop(op, float64(n), y), fop(op, y, float64(n))
	cands = append(cleanFloats(z, z2, -z, math.Nextafter(z, 1e308), math.Nextafter(z2, -1e308), y, math.Trunc(z), math.Trunc(z2), float64(n)), nil, false, true)
	d = s.newDoc(map[string]V{"y": y, "C": cands})
	ln := lit(n)
	s.once("$.C[?(@ == ("+ln+" "+op+" $.y))]", d)
	s.once("$.C[?(@ == ($.y "+op+" "+pick(r, ln, "("+ln+")")+"))]", d)
	if y >= 0 {
		s.once("$.C[?(@ == ("+ln+" "+op+" "+realText(r, y)+"))]", d)
	}
	// booleans and other operands
	if r.p(50) {
		ops := []string{"$.x", "$.t", "$.f", "true", "false", "null", "'1'", "''", "$.s", "[]", "[1]", "$.o", "$.e", "1", "0", "0.0", "2", "1.5", "$.zz", "$.z", "-true", "-false", "-'1'", "-null", "-[]", "-$.o", "-''", "-$.zz", "-$.x", "- -2", "-'a'", "-'2.5'", "-0.0", "-0", "foo", "length('ab')", "$.i", "-$.i", "$.i*0", "1.0e300*1.0e300"}
		doc := map[string]V{"x": pick(r, 2.0, -3.0, 0.0, 0.5), "t": true, "f": false, "s": pick(r, "2", "x", ""), "o": map[string]V{"a": 1.0}, "e": []V{}, "z": nil, "i": 1e308, "C": append([]V{"none", 1e308}, smallCands...), "O": keyed(decNames(-3, -2, -1, 0, 1, 2, 3, 4)...)}
		d := s.newDoc(doc)
		for i := 0; i < 3; i++ {
			e := ops[r.n(len(ops))] + " " + pick(r, "+", "-", "*", "/", "%") + " " + ops[r.n(len(ops))]
			s.once("$.C[?(@ == ("+e+"))]", d)
			s.once("$.C[?(@ == ("+e+" || 'none'))]", d)
			s.once("$.O[(("+e+")+0)]", d)
		}
		e := ops[r.n(len(ops))]
		s.once("$.C[?(@ == "+e+")]", d)
		s.once("$.C[?(@ == (-"+e+" || 'none'))]", d)
		s.once("$.O[(("+e+")+0)]", d)
	}
}

func cleanFloats(fs ...float64) []V {
	var out []V
	for _, f := range fs {
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			out = append(out, f)
		}
	}
	return out
}

// ---- access ----

func (s *shard) accessCases() {
	r := s.r
	k := r.word()
	ks := append(r.similar(k), k)
	arr := flat(r.n(6))
	obj := keyed(ks...)
	obj["0"] = "zero"
	obj["-1"] = "minus"
	obj["length"] = "len!"
	if r.p(30) {
		delete(obj, k)
	}
	deep := map[string]V{"p": []V{map[string]V{"q": []V{1.0, []V{2.0, map[string]V{k: "deep"}}}}, nil}}
	top := map[string]V{"arr": arr, "obj": obj, "s": pick(r, "", "abc", "héé", "日本語", "😀"), "z": nil, "n": 3.0, "t": true, "deep": deep, "k": k, "i": float64(r.in(-7, 7)), "f": pick(r, 0.5, 1.5, 1.99, -0.5, 2.0), "e": []V{}, "eo": map[string]V{}, "is": pick(r, "0", "1", "-1", "01", "a", "1.5", "9", "1e0", "0x1", "+1", "99999999999999999999")}
	top["N"] = []V{arr, obj, "abc", nil, 3.0, false, deep, []V{}, map[string]V{}, []V{arr, obj}}
	top["C"] = append([]V{"zero", "minus", "len!", "deep", "none", k, 100.0, 101.0, 102.0, 103.0, 104.0, 105.0, 106.0, 107.0, 108.0, 109.0, 110.0, 111.0, 112.0, 113.0, 114.0, 115.0}, smallCands...)
	d := s.newDoc(top)
	bases := []string{"$.arr", "$.obj", "$.s", "$.z", "$.n", "$.t", "$.deep", "$.e", "$.eo", "$.zz", "$.deep.p", "$.deep.p[0].q[1]", "'abc'", "[5,6,7]", "$", "keys($.eo)", "1", "null", "[[1,2],[3]]", "(1/0)", "'x'", "$.N", "tokenize('a,b',',')"}
	key := func() string {
		return pick(r, "0", "1", "-1", "2", "-2", "5", "-6", "'0'", "'1'", "'-1'", "'a'", "''", r.quote(k), "$.k", "$.i", "$.f", "$.is", "true", "null", "$.zz", "[]", "[1]", "[0]", "1.0", "0.5", "1.5", "-1.0", "'length'", "foo", "length", "1/0", "$.arr.length", "$.arr.length-1", "9223372036854775807", "4294967296", "-4294967295", "'1.5'", "' 1'", "$.obj", "$.eo", "!1", "-$.i", "/a/", "2147483648", "-0.5", "'01'", "'+1'", "'4294967296'")
	}
	for i := 0; i < 6; i++ {
		b := bases[r.n(len(bases))]
		e := b
		for n := r.in(1, 2); n > 0; n-- {
			switch r.n(4) {
			case 0:
				e += ".length"
			case 1:
				if isID(k, false) && r.p(60) {
					e += "." + k
				} else {
					e += "." + pick(r, "a", "length", "zz", "q", "p")
				}
			default:
				e += "[" + key() + "]"
			}
		}
		s.once("$.C[?(@ == ("+e+"))]", d)
		s.once("$.C[?(@ == ("+e+" || 'none'))]", d)
		s.once("$.obj[("+e+")]", d)
		// the same from the candidate
		post := pick(r, ".length", "[0]", "[-1]", "[1]", "["+key()+"]", "["+key()+"]", ".a", "["+r.quote(k)+"]", "[0][0]", "[0].length", "[@.length-1]", "[@[0]]", ".p[0].q[1][1]["+r.quote(k)+"]", ".p[0].q[0]", "[$.i]", "[$.k]")
		s.once("$.N[?(@"+post+")]", d)
		s.once("$.N[?(@"+post+" == "+pick(r, "0", "1", "100", "'zero'", "3", "null", "false", "$.C[5]", "'len!'", "2", "'deep'")+")]", d)
		s.once("$.N[?(!@"+post+")]", d)
	}
	// @ and $ in nested positions
	s.once("$.N[*][?(@ == $"+pick(r, ".n", ".z", ".arr[0]", ".N[0][0]", ".obj.length", "['obj']['0']")+")]", d)
	s.once("$.N[?(@ == $"+pick(r, ".arr", ".obj", ".z", ".n", ".e", ".deep", ".N[0]")+")]", d)
	s.once("$[?(@ == $"+pick(r, ".arr", ".obj", ".z", ".n", ".e", "['is']", "['k']", "")+")]", d)
	s.once("$.."+"[?(@"+pick(r, ".q", "[0]", ".length > 2", ".p[0]", "["+r.quote(k)+"]")+")]", d)
}

// ---- functions ----

func (s *shard) numFnCases() {
	r := s.r
	n := r.n(6)
	if r.p(5) {
		n = r.in(20, 60)
	}
	arr := make([]V, n)
	mode := r.n(6)
	for i := range arr {
		switch mode {
		case 0:
			arr[i] = float64(r.in(-5, 9))
		case 1:
			arr[i] = r.float()
		case 2:
			arr[i] = r.str()
		case 3:
			arr[i] = pick[V](r, 1.0, true, false, -2.0, 0.5)
		case 4:
			arr[i] = -math.Abs(r.float())
		default:
			arr[i] = pick[V](r, 1.0, "a", nil, true, []V{}, 2.5, "10", map[string]V{}, "9", -3.0)
		}
	}
	x := r.float()
	str := pick[V](r, r.str(), strconv.FormatFloat(x, 'g', -1, 64), strconv.Itoa(r.in(-99, 99)), "1.5", "abc", "", " 1", "1 ", "1e3", "-0", "+5", ".5", "5.", "1e400", "-1e400", "0x10", "1_0", "--1", "1.2.3", "9007199254740993", "123456789012345678901234567890")
	var sum, prod float64
	lo, hi := math.Inf(1), math.Inf(-1)
	prod = 1
	slo, shi := "", ""
	first := true
	var cands []V
	num := func(v V) float64 {
		switch v := v.(type) {
		case float64:
			return v
		case bool:
			if v {
				return 1
			}
		}
		return 0
	}
	for _, v := range arr {
		f := num(v)
		sum += f
		prod *= f
		lo, hi = math.Min(lo, f), math.Max(hi, f)
		if t, ok := v.(string); ok {
			if first || t < slo {
				slo = t
			}
			if first || t > shi {
				shi = t
			}
			first = false
		}
	}
	cands = append(cands, cleanFloats(sum, prod, lo, hi, sum/float64(n), sum/float64(n+1), sum-num(at(arr, 0)), math.Abs(x), -math.Abs(x), math.Floor(x), math.Ceil(x), math.Round(x), math.Trunc(x), x, math.Nextafter(sum, 1e308), math.Nextafter(prod, 0), 0, 1, float64(n))...)
	cands = append(cands, slo, shi, nil, true, false, "", "none", "a")
	if t, ok := str.(string); ok {
		if f, err := strconv.ParseFloat(t, 64); err == nil {
			cands = append(cands, cleanFloats(f, math.Trunc(f), -f)...)
		}
	}
	for i := 0; i < len(arr) && i < 6; i++ {
		cands = append(cands, arr[i])
	}
	doc := map[string]V{"a": arr, "x": x, "s": str, "C": cands, "o": map[string]V{"a": 1.0}, "z": nil, "t": true, "n": []V{arr, arr}}
	d := s.newDoc(doc)
	for _, f := range []string{"sum", "prod", "avg", "max", "min"} {
		s.once("$.C[?(@ == "+f+"($.a))]", d)
		s.once("$.C[?(@ == ("+f+"($.a) || 'none'))]", d)
	}
	for _, f := range []string{"abs", "floor", "ceil", "to_number"} {
		s.once("$.C[?(@ == "+f+"("+pick(r, "$.x", "$.s", "$.x", "-$.x", "$.z", "$.t", "$.a", "$.o", "$.zz", "$.a[0]", "$.x/2", "$.x*3")+"))]", d)
	}
	s.once("$.C[?(@ == to_number($.s))]", d)
	s.once("$.C[?(@ == (to_number($.s) || 'none'))]", d)
	f := pick(r, "sum", "prod", "avg", "max", "min", "abs", "floor", "ceil", "to_number")
	s.once("$.C[?(@ == ("+f+"("+pick(r, "$.o", "$.z", "$.t", "$.zz", "$.s", "$.x", "'a'", "[]", "[1]", "[null]", "['a','b']", "[1,'a']", "['a',1]", "[[1]]", "$.n", "[true]", "[true,2]", "[1.5,1]", "keys($.o)", "1", "1.5", "-1.5", "null", "true", "/a/", "[$.zz]", "[$.x,$.zz]", "'-12.5'")+") || 'none'))]", d)
	// several arguments, literal integers
	var as []string
	var ns []int64
	m := r.in(2, 5)
	kind := r.n(4)
	for i := 0; i < m; i++ {
		switch kind {
		case 0:
			k := r.int()
			if k < -math.MaxInt64+2 {
				k = 5
			}
			ns = append(ns, k)
			as = append(as, strconv.FormatInt(k, 10))
		case 1:
			as = append(as, pick(r, "$.x", "1", "2.5", "-3", "true", "$.a[0]", "$.a[1]", "0", "$.zz", "false"))
		case 2:
			as = append(as, pick(r, "'a'", "'b'", "'ab'", "''", "$.s", "'é'", "'~'", "'B'", "'10'", "'9'"))
		default:
			as = append(as, pick(r, "1", "'a'", "null", "$.a", "$.x", "true", "[]"))
		}
	}
	fm := pick(r, "max", "min")
	s.once("$.C[?(@ == ("+fm+"("+strings.Join(as, ",")+") || 'none'))]", s.newDoc(map[string]V{"x": x, "s": str, "a": arr, "C": append(append([]V{}, cands...), "none", "a", "b", "ab", "", "é", "~", "B", "10", "9", 1.0, 2.5, -3.0, 0.0)}))
	if kind == 0 {
		s.probe(fm+"("+strings.Join(as, ",")+")", nil, floatsOf(ns), nil)
		s.probe(pick(r, "sum", "avg", "prod", "max", "min")+"(["+strings.Join(as, ",")+"])", nil, append(floatsOf(ns), sumOf(ns), sumOf(ns)/float64(m), prodOf(ns)), nil)
		k := ns[0]
		ak := k
		if ak < 0 {
			ak = -ak
		}
		f := pick(r, "abs", "floor", "ceil", "to_number")
		s.probe(f+"("+as[0]+")", nil, []V{float64(k), float64(ak), -float64(ak)}, []int64{k, -k, k + 1, k - 1, ak, 0})
	}
	if r.p(10) {
		s.probe(pick(r, "abs(-9223372036854775807-1) || 'none'", "abs(-9223372036854775807)", "floor(-9223372036854775807)", "-abs(9223372036854775807)"), nil, []V{"none", 9223372036854775807.0, -9223372036854775808.0}, []int64{math.MaxInt64, math.MinInt64, -math.MaxInt64})
	}
}

func at(a []V, i int) V {
	if i < len(a) {
		return a[i]
	}
	return nil
}
func floatsOf(ns []int64) []V {
	var out []V
	for _, n := range ns {
		out = append(out, float64(n), math.Nextafter(float64(n), 0))
	}
	return out
}
func sumOf(ns []int64) float64 {
	f := 0.0
	for _, n := range ns {
		f += float64(n)
	}
	return f
}
func prodOf(ns []int64) float64 {
	f := 1.0
	for _, n := range ns {
		f *= float64(n)
	}
	if math.IsInf(f, 0) {
		return 1
	}
	return f
}

var patterns = []string{",", "\\s+", " ", "", "a", "a*", "a+", "[,;]", ", *", "b|c", "x", ".", "^", "$", "\\.", "(a)(b)", "ab", "é", "\\b", "[^a-z]", "a{2}", "(", "\\d", "a?", "a|", "^a", "b$", "[", "\\W+", "aa", "-"}

func (s *shard) strFnCases() {
	r := s.r
	sub := pick(r, r.str(), "a", "ab", "", "é", "b")
	str := pick(r, r.str(), r.str()+sub+r.str(), sub+r.str(), r.str()+sub, sub+sub, sub, "a,b,c", "a, b,,c", "aXbXc", "aaa", ",a,", "héllo wörld", "", "one two  three")
	if r.p(10) && len(sub) > 1 {
		str = strings.Repeat(sub[:1], 3) + sub
	}
	els := make([]V, r.n(5))
	for i := range els {
		els[i] = compPool[r.n(len(compPool))]
	}
	target := compPool[r.n(len(compPool))]
	if len(els) > 0 && r.p(50) {
		target = r.twist(els[r.n(len(els))])
	}
	obj := keyed(r.similar(sub)...)
	if r.p(30) {
		obj = map[string]V{"a": 1.0}
	}
	if r.p(10) {
		obj = map[string]V{}
	}
	if r.p(60) {
		for _, k := range sortedKeys(obj) {
			if r.p(50) {
				obj[k] = compPool[r.n(len(compPool))]
			}
		}
	}
	doc := map[string]V{"s": str, "sub": sub, "e": els, "t": target, "o": obj, "n": 5.0, "z": nil, "b": true}
	var cs []V
	cs = append(cs, nil, true, false, "none", "", str, sub, float64(len(str)), float64(len([]rune(str))), float64(len(els)), float64(len(obj)))
	for i := 0; i < 8; i++ {
		cs = append(cs, float64(i))
	}
	for _, p := range []string{",", " ", "a", sub} {
		var a []V
		for _, x := range strings.Split(str, p) {
			a = append(a, x)
		}
		cs = append(cs, a)
		if len(a) > 1 {
			cs = append(cs, a[1:], a[:len(a)-1])
		}
	}
	for k := range keyed(sortedKeys(obj)...) {
		_ = k
	}
	for _, k := range sortedKeys(obj) {
		cs = append(cs, k)
	}
	cs = append(cs, []V{str}, []V{}, []V{""}, []V{"a"})
	doc["C"] = sane(cs)
	d := s.newDoc(doc)
	arg := func() string {
		return pick(r, "$.s", "$.sub", "$.e", "$.t", "$.o", "$.n", "$.z", "$.b", "$.zz", "''", "'a'", "[1]", "1", "null", "['a','b']", r.quote(str), r.quote(sub))
	}
	tf := func(e string) {
		s.once("$.C[?(@ == ("+e+"))]", d)
		if r.p(50) {
			s.once("$.C[?(@ == ("+e+" || 'none'))]", d)
		}
	}
	for _, f := range []string{"contains", "starts_with", "ends_with"} {
		tf(f + "($.s,$.sub)")
		tf(f + "(" + r.quote(str) + "," + r.quote(sub) + ")")
		tf(f + "(" + arg() + "," + arg() + ")")
	}
	tf("contains($.e,$.t)")
	tf("contains($.e," + pick(r, "0", "''", "null", "1", "'1'", "$.zz", "[]", "false", "1.0", "'a'") + ")")
	tf("contains([" + arg() + "," + arg() + "]," + arg() + ")")
	tf("length(" + arg() + ")")
	tf("length($.s)")
	tf("length(" + pick(r, "$.e", "$.o", "keys($.o)", "tokenize($.s,',')", "[[1,2]]", "1.5", "true", "/a/", "[]") + ")")
	tf("keys(" + arg() + ")")
	tf("length(keys($.o))")
	s.once("$.C[?(@ in keys($.o))]", d)
	s.once("$.C[?(contains(keys($.o),@))]", d)
	s.once("$.C[?(@ nin keys($.o))]", d)
	p := patterns[r.n(len(patterns))]
	tf("tokenize($.s," + r.quote(p) + ")")
	s.once("$.C[?(@ in tokenize($.s,"+r.quote(p)+"))]", d)
	tf("length(tokenize($.s," + r.quote(p) + "))")
	tf("tokenize($.s,$.sub)")
	tf("tokenize(" + arg() + "," + arg() + ")")
	tf("tokenize($.s," + r.quote(p) + ")[" + strconv.Itoa(r.in(-2, 3)) + "]")
	// exact pieces, in order
	toks := []V{}
	for _, x := range strings.Split(str, p) {
		toks = append(toks, x)
	}
	for i := range toks {
		if i < 3 {
			tf(fmt.Sprintf("tokenize($.s,%s)[%d] == %s", r.quote(p), i, r.quote(toks[i].(string))))
		}
	}
}

// ---- regular expressions ----

func (r *R) regex(depth int) string {
	if depth <= 0 {
		return pick(r, "a", "b", "c", "ab", ".", "[ab]", "[^a]", "[a-c]", "\\d", "\\w", "\\s", "\\.", "0", "1", "é", "x", "\\D", "\\W", "[0-9a-f]", "-", " ", "/", "\\\\", "[[:alpha:]]", "\\t", "\\*", "A", "[-a]", "[a\\]b]", "日", "\\x41", "[.]", "\\x{65e5}", "[[:digit:]a]", "[^[:alpha:]]", "[\\x30-\\x35]")
	}
	switch r.n(10) {
	case 0, 1, 2:
		return r.regex(depth-1) + r.regex(depth-1)
	case 3:
		return r.regex(depth-1) + "|" + r.regex(depth-1)
	case 4:
		return "(" + r.regex(depth-1) + ")" + pick(r, "", "*", "+", "?")
	case 5:
		return "(?:" + r.regex(depth-1) + ")" + pick(r, "", "*", "+", "?", "{2}")
	case 6:
		return r.regex(0) + pick(r, "*", "+", "?", "{2}", "{1,2}", "{2,}", "*?", "+?", "{0,1}", "??")
	case 7:
		return pick(r, "^", "") + r.regex(depth-1) + pick(r, "$", "")
	case 8:
		return pick(r, "\\b", "^", "$", "\\A", "\\z", "\\B", "(?i)") + r.regex(depth-1)
	default:
		return r.regex(depth - 1)
	}
}

func (s *shard) regexCases() {
	r := s.r
	re := r.regex(r.in(0, 3))
	if r.p(15) {
		re = pick(r, "(", ")", "[", "a{", "a{2,1}", "*", "a**", "+a", "?", "\\", "[z-a]", "(?P<n>a)", "(?<n>a)", "\\1", "[[:foo:]]", "(?=a)", "a{1001}", "x{0}", "", "|", "a||b", "()", "^*", "[]", "[]a]", "[^]", "a{,2}", "a{1", "\\pL", "\\Qa.b\\E", "(?i", "(?z)a", "\\8", "\\x{41}", "\\k", "[\\d]", "[\\w-]", "^$", "a\\", "(a", "a)", "[a", "((a)", "\\z", "\\Z", "\\c")
	}
	if r.p(15) {
		re = r.mutate(re)
	}
	var subj []V
	for i := 0; i < 14; i++ {
		switch r.n(4) {
		case 0:
			subj = append(subj, r.str())
		case 1:
			subj = append(subj, words[r.n(len(words))])
		default:
			n := r.n(6)
			t := ""
			for j := 0; j < n; j++ {
				t += pick(r, "a", "b", "c", "ab", "0", "1", "x", " ", "A", "é", ".", "-", "/", "\\", "\n", "_", "B", "日")
			}
			subj = append(subj, t)
		}
	}
	lit := "/" + escSlash(r, re) + "/"
	op := pick(r, " =~ ", "=~", "~", " ~ ")
	ok := !strings.ContainsAny(re, "\x00") && validLit(re)
	doc := map[string]V{"S": subj, "re": strings.ToValidUTF8(re, "?")}
	d := s.newDoc(doc)
	if ok {
		s.once("$.S[?(@"+op+lit+")]", d)
		s.once("$.S[?(!(@"+op+lit+"))]", d)
	}
	q := r.quote(re)
	s.once("$.S[?(@"+op+q+")]", d)
	s.once("$.S[?(@"+op+"$.re)]", d)
	if r.p(30) {
		s.once("$.S[?(@"+op+"$.re && @"+op+q+")]", d)
		t := subj[r.n(len(subj))].(string)
		s.once("$.S[?("+r.quote(t)+op+q+")]", d)
		s.once("$[?("+r.quote(t)+op+lit+")]", d)
	}
	if r.p(20) {
		// several regular expressions in one path, slashes, literal neighbours
		re2 := r.regex(1)
		s.once("$.S[?(@"+op+lit+" "+pick(r, "&&", "||")+" @"+op+"/"+escSlash(r, re2)+"/)]", d)
		s.once("$.S[?(@ =~ /"+pick(r, "\\/", "a\\/b", "\\\\\\/", "[\\/]", "\\/\\/", "^\\/$", "a\\\\", "\\d\\/", "\\\\/", "a\\/", "'", "\"", ")", "]", "\\)", " ")+"/)]", s.newDoc(map[string]V{"S": []V{"/", "a/b", "\\/", "//", "\\", "a\\", "1/", "/ x", "a/", "'", "\"", ")", "]", " ", ""}}))
	}
	s.once("$[?("+pick(r, "@ =~ /a/", "'a' =~ @", "@ =~ @", "@ =~ 'a'", "$[0] =~ /a/")+")]", s.newDoc([]V{pick[V](r, "a", "b", 1.0, nil, []V{}), "a", "abc"}))
}

// escSlash writes / as \/, the only way a slash can stand in a literal.
func escSlash(r *R, re string) string {
	var sb strings.Builder
	for i := 0; i < len(re); i++ {
		if re[i] == '\\' && i+1 < len(re) && re[i+1] != '/' {
			sb.WriteByte(re[i])
			i++
			sb.WriteByte(re[i])
		} else if re[i] == '/' {
			sb.WriteString("\\/")
		} else {
			sb.WriteByte(re[i])
		}
	}
	return sb.String()
}

// validLit tells whether re can be written between slashes without ambiguity.
func validLit(re string) bool { return !strings.HasSuffix(re, "\\") }

// ---- membership ----

func (s *shard) memberCases() {
	r := s.r
	n := pick(r, r.n(5), r.n(5), r.n(40))
	arr := make([]V, n)
	for i := range arr {
		arr[i] = r.comparable()
	}
	var cands []V
	for i := 0; i < 12; i++ {
		if n > 0 && r.p(60) {
			cands = append(cands, r.twist(arr[r.n(n)]))
		} else {
			cands = append(cands, r.comparable())
		}
	}
	if r.p(80) {
		cands, arr = sane(cands), sane(arr)
		n = len(arr)
	}
	if n > 0 {
		cands = append(cands, arr[0], arr[n-1])
	}
	cands = append(cands, nil, 0.0, "", false, []V{}, map[string]V{})
	d := s.newDoc(map[string]V{"A": arr, "C": cands, "D": []V{arr, cands, []V{}, []V{nil}, []V{arr}}})
	for _, op := range []string{"in", "nin"} {
		s.once("$.C[?(@ "+op+" $.A)]", d)
		s.once("$.D[?($.C["+strconv.Itoa(r.n(len(cands)))+"] "+op+" @)]", d)
		var el []string
		for _, v := range arr {
			if t, ok := litOf(r, v); ok && len(el) < 12 && len(t) < 60 {
				el = append(el, t)
			}
		}
		l := "[" + strings.Join(el, pick(r, ",", " , ")) + "]"
		s.once("$.C[?(@ "+op+" "+l+")]", d)
		s.once("$.C[?(@ == "+l+")]", d)
		if len(el) > 0 {
			s.once("$.C[?(@ == "+l+"["+strconv.Itoa(r.n(len(el)))+"])]", d)
		}
		s.once("$.C[?("+l+".length == "+strconv.Itoa(len(el))+")]", d)
		t, ok := litOf(r, cands[r.n(len(cands))])
		if ok && len(t) < 100 {
			s.once("$.D[?("+t+" "+op+" @)]", d)
			s.once("$.D[?("+t+" "+op+" ["+strings.Join(append(append([]string{}, el...), "@[0]", "$.zz"), ",")+"])]", d)
		}
		s.once("$.C[?(@ "+op+" ["+pick(r, "@", "@,1", "1,@", "$.A[0],$.A[1]", "$.zz", "[@]", "$.A", "1+1,2*2", "@.length", "[]", "", "true,false,null", "1/0", "'a','b'", "[1],[2]")+"])]", d)
		s.once("$.C[?((@ "+op+" $.A) == "+pick(r, "true", "false")+")]", d)
		s.once("$.C[?(@ "+op+" "+pick(r, "$.zz", "$.A[0]", "keys($)", "1/0", "$.D[0]", "$.A.x", "tokenize('a b',' ')", "[[]][0]", "'abc'", "1", "null")+")]", d)
	}
	// the array of the values, in order
	e := []string{"1+1", "'a'", "$.A[0]", "@", "true", "[1]", "$.C.length", "null", "2.5", "-1", "abs(-3)"}
	var pick3 []string
	for i := r.in(1, 5); i > 0; i-- {
		pick3 = append(pick3, e[r.n(len(e))])
	}
	l := "[" + strings.Join(pick3, ",") + "]"
	s.once("$.C[?("+l+"["+strconv.Itoa(r.n(len(pick3)+1))+"] == "+e[r.n(len(e))]+")]", d)
	s.once("$.C[?("+l+" == ["+strings.Join(append(pick3[:len(pick3)-1:len(pick3)-1], e[r.n(len(e))]), ",")+"])]", d)
}
