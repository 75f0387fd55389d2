package main

// Everything of a small size: documents, paths on them, operands of the operators, arguments of the functions.

// smallTrees gives, for each size up to n, every value with so many nodes over arrays, objects with few names, and two
// kinds of leaf.  Numbers are numbered, so that each can be told from the others.
func smallTrees(n int) [][]V {
	t := make([][]V, n+1)
	for size := 1; size <= n; size++ {
		var l []V
		if size == 1 {
			l = append(l, 1.0, nil)
		}
		for _, a := range tuples(t, size-1) {
			l = append(l, a)
		}
		for _, ks := range [][]string{{}, {"a"}, {"0"}, {"a", "b"}} {
			for _, a := range tuples(t, size-1) {
				if len(a) != len(ks) {
					continue
				}
				m := map[string]V{}
				for i, k := range ks {
					m[k] = a[i]
				}
				l = append(l, m)
			}
		}
		t[size] = l
	}
	for _, l := range t {
		for i, v := range l {
			n := 0.0
			l[i] = numbered(v, &n)
		}
	}
	return t
}

// tuples gives the sequences of values in t whose sizes add up to n.
func tuples(t [][]V, n int) [][]V {
	if n == 0 {
		return [][]V{{}}
	}
	var l [][]V
	for first := 1; first <= n; first++ {
		for _, rest := range tuples(t, n-first) {
			for _, v := range t[first] {
				l = append(l, append([]V{v}, rest...))
			}
		}
	}
	return l
}

func numbered(v V, n *float64) V {
	switch v := v.(type) {
	case float64:
		*n++
		return *n
	case []V:
		a := make([]V, len(v))
		for i := range v {
			a[i] = numbered(v[i], n)
		}
		return a
	case map[string]V:
		m := map[string]V{}
		for _, k := range []string{"0", "a", "b"} {
			if x, ok := v[k]; ok {
				m[k] = numbered(x, n)
			}
		}
		return m
	}
	return v
}

var stepsOf = map[string][]string{
	"C01": {".a", ".b", ".0", "[0]", "[1]", "[-1]", ".-1", "['a']", "['0']", ".*", "[*]", "['a','b']", "[0,-1]", "['a',0]", "[1,1]", "[b,a,b]", "[5,0]", "[-2]"},
	"C03": {"..a", "..b", "..*", "..[0]", "..[-1]", "..-1", "..['a','b']", "..[0,1]", "..[*]", "..[?(@)]", "..[?(@.a)]", "..[?(true)]", "..[(0)]", "..['0']", "..0", "..[0:1]", ".a", ".*", "[0]"},
	"C04": {"[?(@)]", "[?(!@)]", "[?(@.a)]", "[?(@[0])]", "[?(@==null)]", "[?(true)]", "[?(false)]", "[?(@==$)]", "[?($.a)]", "[?($[0]==@)]", "[?(@.length)]", "[?(@.length==0)]", "[?(@>1)]", "..[?(@)]", "..[?(@.length==0)]", ".*", ".a", "[0]"},
	"C05": {".a", ".*", "[0]", "[1,0]", "['b','a']", "[0,0]", "[::-1]", "[0:1]", "..a", "..*", "..[0]", "..[1,0]", "[?(@)]", "[?(true)]", "..[?(true)]", "[(0)]", "..[(0)]"},
	"C23": {"[(0)]", "[('a')]", ".(0)", ".('a')", "[(1)]", "[(-1)]", ".(-1)", "[(null)]", "[('0')]", "[(0.9)]", "[($.length-1)]", "[($.a)]", "[($[0])]", "[(@)]", "[(@.length-1)]", "..[(@.length-1)]", "..[(0)]", "..[('a')]", "..(0)", "..[(@.a)]", "..[(@[0])]", "..[(-1)]", ".*", ".a"},
}

// everyStep applies every sequence of a few steps to every small document.
func (s *shard) everyStep() {
	steps := stepsOf[s.prop]
	long := [3]int{4, 3, 2} // the largest document for one, two and three steps
	if !s.quick() {
		long = [3]int{5, 4, 3}
	}
	if len(steps) > 20 {
		long[2]--
	}
	i := 0
	for size, l := range smallTrees(long[0]) {
		for _, v := range l {
			i++
			if !s.mine(i) {
				continue
			}
			d := s.newDoc(v)
			for _, a := range steps {
				s.once("$"+a, d)
				if size > long[1] {
					continue
				}
				for _, b := range steps {
					s.once("$"+a+b, d)
					if size > long[2] {
						continue
					}
					for _, c := range steps {
						s.once("$"+a+b+c, d)
					}
				}
			}
		}
	}
}

// what tells values apart that are alike to ==: null from a missing value, an integer from a real, a number from its
// text, a list of one from its element
var probeForms = []string{"% in [null]", "[%] == [null]", "@ == (%)/2", "@ == 7/(%)", "@ == 1/(%)", "@ == (%)%3", "@ == ((%) + '1')", "(%) == (%)", "% in [@]", "@ in [%]", "[%] == [@]", "@ < (%)", "@ >= (%)", "@ == (%).length",
	"@ == (%)[0]", "(%) =~ '1|a'", "@ == ((%) && 'none')", "@ == -(%)", "@ == max(%)", "@ == length(%)", "contains([%],@)", "@ == ((%)*4611686018427387904/4611686018427387904)", "starts_with(%,@)"}

// further uses the value of e, in $.C of the document, in n further ways.
func (s *shard) further(e string, d *Doc, n int) {
	for ; n > 0; n-- {
		s.probes++
		s.once("$.C[?("+replace(probeForms[s.probes%len(probeForms)], "%", e)+")]", d)
	}
}

// every short array of these
var elements = []V{0.0, 1.0, 2.0, -3.0, 0.5, "x", "2", nil, true, 1e300, []V{3.0}}

// everyArray applies functions of an array to every short one.
func (s *shard) everyArray(fns []string) {
	var all []V
	var rec func(a []V, n int)
	rec = func(a []V, n int) {
		if n == 0 {
			all = append(all, append([]V{}, a...))
			return
		}
		for _, e := range elements {
			rec(append(a, e), n-1)
		}
	}
	most := 3
	if !s.quick() {
		most = 4
	}
	for n := 0; n <= most; n++ {
		rec(nil, n)
	}
	const part = 40
	i := 0
	for lo := 0; lo < len(all); lo += part {
		l := all[lo:lesser(lo+part, len(all))]
		var d *Doc
		for _, f := range fns {
			for k, t := range []string{"% == null", "%", "% > 0.5", "%/2 == 1", "% in [0,null]", "%*1.5 < 3", "7/% > 3", "(% || 'none') in ['none','x',2]", "% == @[0]", "% in @", "1/% > 0", "%+'' == '2'"} {
				i++
				if !s.mine(i) {
					continue
				}
				if d == nil {
					d = s.newDoc(map[string]V{"L": l})
				}
				e := f + "(@)"
				if fnArity2[f] {
					e = f + "(@," + []string{"1", "2", "'2'", "null", "[3]"}[(k+lo)%5] + ")"
				}
				s.once("$.L[?("+replace(t, "%", e)+")]", d)
			}
		}
	}
}

// operands of && and ||, of ! and of filters, missing values included
var truths = []string{"null", "false", "true", "0", "1", "0.0", "-0.0", "0.5", "''", "'a'", "'0'", "'false'", "[]", "[0]", "[[]]", "$.m", "$.m.x", "1/0", "'a'+1", "$.eo", "$.obj", "$.tiny", "$.z", "$.f", "$.zero", "$.nan", "-$.big*$.big", "1 < $.m", "$.m in [1]", "max([])", "abs('x')", "foo", "$.s", "!1", "!0"}

func (s *shard) everyTruth() {
	inf := 1e300
	doc := map[string]V{"obj": map[string]V{"a": 1.0}, "eo": map[string]V{}, "z": nil, "f": false, "zero": 0.0, "s": "str", "tiny": 5e-324, "big": inf,
		"C": append([]V{"str", "none", 5e-324, 0.5, []V{0.0}, map[string]V{"a": 1.0}, []V{[]V{}}}, smallCands...)}
	d := s.newDoc(doc)
	val := func(t string) string {
		if t == "$.nan" {
			return "($.big*$.big*0)"
		}
		return t
	}
	i := 0
	for _, a := range truths {
		a = val(a)
		for _, f := range []string{"%", "!%", "!!%", "!(%)", "!!(%)", "(%)"} {
			i++
			if s.mine(i) {
				e := replace(f, "%", a)
				s.once("$.C[?("+e+")]", d)
				s.once("$.C[?(@ == ("+e+"))]", d)
				s.further("("+e+")", d, 3)
			}
		}
		for _, b := range truths {
			b = val(b)
			for _, op := range []string{" && ", " || "} {
				i++
				if !s.mine(i) {
					continue
				}
				s.once("$.C[?(@ == (("+a+")"+op+"("+b+")))]", d)
				s.once("$.C[?((("+a+")"+op+"("+b+") || 'none') == @)]", d)
				s.once("$.C[?(!(("+a+")"+op+"("+b+")))]", d)
				s.further("(("+a+")"+op+"("+b+"))", d, 2)
				if !s.quick() {
					for _, c := range truths {
						c = val(c)
						s.once("$.C[?(@ == (("+a+")"+op+"("+b+") && ("+c+")))]", d)
						s.once("$.C[?(@ == (("+a+")"+op+"("+b+") || ("+c+")))]", d)
					}
				}
			}
		}
	}
	// a missing value in every operand position
	for _, n := range []string{"$.m", "1/0", "'a'+1", "abs('x')", "$.s.x"} {
		for _, v := range []string{"1", "null", "'a'", "[1]", "$.obj", "false", n} {
			for _, f := range []string{"N+V", "V+N", "N-V", "V*N", "N/V", "V%N", "N<V", "V<=N", "N>V", "V>=N", "N==V", "V==N", "N!=V", "V!=N", "N in [V]", "V in [N]", "N nin [V]", "V nin [N,V]", "N=~'a'", "'a'=~N", "N in V", "N nin V", "V in N", "V nin N", "N[V]", "V[N]", "N.a", "-N", "!N", "N.length", "[N]==[V]", "[N]==[null]", "[N][0]", "length(N)", "contains([V],N)", "contains(N,V)", "max(N,V)", "max(V,N)", "[N].length", "N&&V", "V&&N", "N||V", "V||N"} {
				i++
				if !s.mine(i) {
					continue
				}
				e := replace(replace(f, "N", "("+n+")"), "V", "("+v+")")
				s.once("$.C[?(@ == ("+e+"))]", d)
				s.once("$.C[?((("+e+") || 'none') == @)]", d)
			}
		}
	}
}

func replace(f, what, with string) string {
	t := ""
	for i := 0; i < len(f); i++ {
		if f[i:i+1] == what {
			t += with
		} else {
			t += f[i : i+1]
		}
	}
	return t
}

var allFns = []string{"abs", "avg", "ceil", "contains", "ends_with", "floor", "keys", "length", "max", "min", "prod", "starts_with", "sum", "to_number", "tokenize", "foo", "Abs", "len", "size"}
var argPool = []string{"0", "1", "-1", "2.5", "-2.5", "-0.5", "9007199254740993", "1.0e300", "''", "'a'", "'b'", "'ab'", "'12'", "'1.5'", "' '", "'a,b'", "','", "null", "true", "false", "[]", "[1]", "[1,2]", "[2.5,-1]", "['a']", "['b','a']", "[1,'a']", "['a',1]", "[true,2]", "[null]", "[[1]]", "$.o", "$.eo", "$.zz", "1/0", "$.n", "/a/", "'['", "$.s", "x"}

// everyCall calls every function with every choice of arguments.
func (s *shard) everyCall(fns []string) {
	cands := append([]V{"none", "héé", "12", "b", -2.5, 9007199254740993.0, 1e300, -1e300, 1.25, 0.75, []V{""}, []V{"a", "b"}, []V{"a,b"}, []V{"", ""}, []V{"a", ""}, []V{"", "b"}, []V{"x"}, []V{"x", "y"}, []V{"y", "x"}, []V{"", "", ""}}, smallCands...)
	d := s.newDoc(map[string]V{"o": map[string]V{"x": 1.0}, "eo": map[string]V{}, "n": 3.0, "s": "héé", "C": cands})
	i := 0
	try := func(e string) {
		s.once("$.C[?(@ == "+e+")]", d)
		s.once("$.C[?(@ == ("+e+" || 'none'))]", d)
		s.further(e, d, 1)
	}
	for _, f := range fns {
		try(f + "()")
		for _, a := range argPool {
			i++
			if s.mine(i) {
				try(f + "(" + a + ")")
			}
			for k, b := range argPool {
				i++
				if s.mine(i) {
					try(f + "(" + a + "," + b + ")")
					if i/8%5 == 0 || !s.quick() {
						try(f + "(" + a + "," + b + "," + argPool[(k*7+i)%len(argPool)] + ")")
					}
				}
			}
		}
	}
}

// everyFnOf applies the functions of one argument to every small value there is, as a document has it.
func (s *shard) everyFnOf(fns []string) {
	size := 4
	if !s.quick() {
		size = 5
	}
	i := 0
	for _, l := range smallTrees(size) {
		for _, v := range l {
			i++
			if !s.mine(i) {
				continue
			}
			c := append([]V{"none", "a", "b", "0", []V{"a"}, []V{"0"}, []V{}, []V{"a", "b"}, []V{"b", "a"}, 6.0, 0.5, 1.5, []V{1.0}}, smallCands...)
			d := s.newDoc(map[string]V{"v": v, "w": []V{v}, "x": map[string]V{"a": v, "b": nil}, "C": c})
			for _, f := range fns {
				if f == "keys" {
					s.once("$.C[?(@ in keys($.v))]", d)
					s.once("$.C[?(@ in keys($.x))]", d)
					s.once("$.C[?(@ == keys($.v).length)]", d)
				}
				if fnArity2[f] {
					s.once("$.C[?("+f+"($.v,@))]", d)
					s.once("$.C[?("+f+"(@,$.v))]", d)
					s.once("$.C[?("+f+"($.w,@))]", d)
					continue
				}
				s.once("$.C[?(@ == ("+f+"($.v) || 'none'))]", d)
				s.once("$.C[?(@ == ("+f+"($.w) || 'none'))]", d)
				s.once("$.C[?(@ == ("+f+"($.x) || 'none'))]", d)
				s.further(f+"($.v)", d, 2)
				s.further(f+"($.w)", d, 1)
			}
		}
	}
}

var fnArity2 = map[string]bool{"contains": true, "ends_with": true, "starts_with": true, "tokenize": true}

// everyAccess applies every form of access to every kind of value, twice over.
func (s *shard) everyAccess() {
	top := map[string]V{"arr": []V{100.0, []V{101.0, 102.0}, map[string]V{"a": 103.0}, "s"}, "obj": map[string]V{"a": 104.0, "0": []V{105.0}, "1": nil, "z": nil, "-1": 106.0, "length": 107.0, "": 108.0, "true": 109.0, "null": 110.0, "1.5": 111.0, "b": map[string]V{"a": 112.0, "length": "L"}}, "s": "héé", "e": []V{}, "eo": map[string]V{}, "z": nil, "n": 1.0, "f": 1.5, "m": -1.0, "k": "a", "t": true}
	var c []V
	for i := 0; i < 13; i++ {
		c = append(c, 100.0+float64(i))
	}
	top["C"] = append(append(c, "none", "s", "L", []V{101.0, 102.0}, map[string]V{"a": 103.0}, []V{105.0}), smallCands...)
	d := s.newDoc(top)
	bases := []string{"$.arr", "$.obj", "$.s", "$.e", "$.eo", "$.z", "$.n", "$.t", "$.zz", "[1,[2],'a']", "'abc'", "$.obj.b", "(1/0)", "$.arr[1]", "keys($.obj)"}
	post := []string{".length", ".a", ".b", ".zz", ".z", "[0]", "[1]", "[2]", "[3]", "[4]", "[-1]", "[-2]", "[-4]", "[-5]", "['a']", "['0']", "['1']", "['-1']", "['length']", "['']", "['01']", "['1.5']", "[true]", "[false]", "[null]", "[0.0]", "[1.5]", "[-1.5]", "[0.9]", "[[]]", "[[1]]", "[$.zz]", "[1/0]", "[$.n]", "[$.f]", "[$.m]", "[$.k]", "[$.arr.length-1]", "[$.obj]", "[9223372036854775807]", "[-9223372036854775807]", "[4294967296]", "[4294967297]", "[x]", "[/a/]"}
	i := 0
	for _, b := range bases {
		for _, p := range post {
			i++
			if s.mine(i) {
				s.once("$.C[?(@ == "+b+p+")]", d)
				s.once("$.C[?(@ == ("+b+p+" || 'none'))]", d)
				s.further("("+b+p+")", d, len(probeForms))
			}
			for _, q := range post {
				i++
				if s.mine(i) {
					s.once("$.C[?(@ == ("+b+p+q+" || 'none'))]", d)
					s.further("("+b+p+q+")", d, 1)
				}
			}
		}
	}
	// the same with @, where the candidates are the bases
	cand := s.newDoc(map[string]V{"N": []V{top["arr"], top["obj"], "héé", []V{}, map[string]V{}, nil, 1.0, true, []V{1.0, []V{2.0}}, false, 0.0, ""}, "arr": top["arr"], "obj": top["obj"], "n": 1.0, "f": 1.5, "m": -1.0, "k": "a"})
	for _, p := range post {
		for _, f := range []string{"@%", "!@%", "@% == null", "@% == @", "@% == @[0]", "(@% || 'none') == 'none'"} {
			i++
			if s.mine(i) {
				s.once("$.N[?("+replace(f, "%", p)+")]", cand)
				s.once("$..[?("+replace(f, "%", p)+")]", cand)
			}
		}
	}
}

// everyMember asks of every pair of values whether one is in an array that holds the other.
func (s *shard) everyMember() {
	vals := []V{nil, true, false, 0.0, 1.0, -1.0, 1.5, 10.0, "", "0", "1", "10", "1.5", "a", "true", "null", []V{}, []V{nil}, []V{1.0}, []V{"1"}, []V{[]V{1.0}}, []V{1.0, 2.0}, []V{true}, map[string]V{}, map[string]V{"a": 1.0}, map[string]V{"a": nil}, map[string]V{"b": nil}, map[string]V{"a": true}, "1,2", "[object Object]"}
	d := s.newDoc(map[string]V{"C": vals})
	i := 0
	// values no document has
	dx := s.newDoc(map[string]V{"C": []V{true, false, 0.0, 1.0, nil, -1.0, 9007199254740992.0, 1e300, "a"}, "h": 1e300, "z": []V{0.0}})
	odd := []string{"($.h*$.h*0)", "($.h*$.h)", "(-$.h*$.h)", "(-$.z[0])", "0", "0.0", "9007199254740993", "9007199254740992", "9223372036854775807", "(9223372036854775807+1.0)", "(1/0)", "$.zz", "@", "null", "[$.h*$.h*0]", "[$.zz]", "'NaN'", "'Infinity'", "''"}
	for _, a := range odd {
		for _, b := range odd {
			i++
			if !s.mine(i) {
				continue
			}
			for _, e := range []string{a + " in [" + b + "]", a + " nin [" + b + "]", "[" + a + "] in [1,[" + b + "]]", "[" + a + "] nin [[" + b + "]]", a + " in [2," + b + ",3]"} {
				s.once("$.C[?(@ == ("+e+"))]", dx)
			}
		}
	}
	for _, v := range vals {
		t, ok := litOf(s.r, v)
		if !ok {
			continue
		}
		for _, op := range []string{" in ", " nin "} {
			i++
			if !s.mine(i) {
				continue
			}
			for _, e := range []string{"@" + op + "[" + t + "]", t + op + "[@]", "@" + op + "['zz'," + t + "]", "@" + op + "[" + t + ",'zz']", "[@]" + op + "[[" + t + "]]", t + op + "['zz',@]", t + op + "@", "@" + op + t, "(@" + op + "[" + t + "]) == true", "@" + op + "[" + t + "," + t + "]", "[@" + op + "[" + t + "]] == [true]"} {
				s.once("$.C[?("+e+")]", d)
			}
		}
		for _, w := range vals {
			u, ok := litOf(s.r, w)
			i++
			if !ok || !s.mine(i) {
				continue
			}
			s.once("$.C[?(@ in ["+t+","+u+"])]", d)
			s.once("$.C[?(@ nin ["+t+","+u+"])]", d)
			s.once("$.C[?(["+t+","+u+"] == [@,"+u+"])]", d)
		}
	}
}

// everyPattern matches every short pattern with every short string over two letters.
func (s *shard) everyPattern() {
	subj := []V{"", "a", "b", "aa", "ab", "ba", "bb", "aab", "aba", "abb", "baa", "1", "a1", "\n", "a\nb", "-", "]", "A", "aaaa", "é"}
	d := s.newDoc(map[string]V{"S": subj})
	n := 3
	if !s.quick() {
		n = 4
	}
	i := 0
	try := func(p string) {
		i++
		if i%2 == 0 && validLit(p) {
			s.once("$.S[?(@ =~ /"+p+"/)]", d)
		} else {
			s.once("$.S[?(@ =~ "+quoteLit(p)+")]", d)
		}
	}
	s.sequences([]string{"a", "b", ".", "*", "+", "?", "|", "(", ")", "[", "]", "^", "$", "-", "{2}", "\\d", "\\b"}, n, try)
	s.sequences([]string{"a", "b", "*", "?", "|", "(", ")", "^", "$"}, n+1, try)
}

func lesser(a, b int) int {
	if a < b {
		return a
	}
	return b
}
