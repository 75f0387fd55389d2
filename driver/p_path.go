package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

func init() {
	props["C01"] = func(s *shard) {
		s.everyStep()
		for s.more() {
			s.childCases()
			s.pathCases(stepW{member: 8, index: 8, wild: 5, union: 8}, 8)
			s.pathCases(allSteps, 2)
		}
	}
	props["C02"] = func(s *shard) {
		s.sliceExhaustive()
		for s.more() {
			s.sliceCases()
			s.pathCases(stepW{member: 4, index: 2, slice: 10, wild: 4, union: 4, nslice: 4, nunion: 2}, 8)
		}
	}
	props["C03"] = func(s *shard) {
		s.everyStep()
		for s.more() {
			s.descentCases()
			if s.r.p(6) {
				s.bigDescent()
			}
			s.pathCases(stepW{member: 3, index: 2, slice: 1, wild: 3, union: 2, filter: 2, exp: 1, nmember: 8, nindex: 6, nslice: 3, nwild: 6, nunion: 4, nfilter: 7, nexp: 3}, 10)
		}
	}
	props["C04"] = func(s *shard) {
		s.everyStep()
		for s.more() {
			s.filterCases()
			if s.r.p(4) {
				s.bigFilter()
			}
			s.pathCases(stepW{member: 4, index: 2, slice: 1, wild: 3, union: 2, filter: 12, nmember: 2, nfilter: 3}, 10)
		}
	}
	props["C05"] = func(s *shard) {
		s.everyStep()
		for s.more() {
			s.composeCases()
			if s.r.p(8) {
				s.bigCompose()
			}
			s.pathCases(allSteps, 12)
		}
	}
	props["C23"] = func(s *shard) {
		s.everyStep()
		for s.more() {
			s.computedCases()
			s.pathCases(stepW{member: 4, index: 2, wild: 3, union: 1, exp: 14, nmember: 1, nexp: 8}, 10)
		}
	}
	props["C15"] = func(s *shard) {
		s.everyTruth()
		for s.more() {
			s.truthCases()
			s.exprCases([]string{"&&", "||", "&&", "||", "+", "<", "=="}, 8)
		}
	}
	props["C22"] = func(s *shard) {
		s.everyCall(allFns)
		for s.more() {
			s.errorCases()
			s.pathCases(stepW{member: 4, index: 2, wild: 3, union: 1, filter: 14, exp: 2, nfilter: 5, nexp: 1}, 6)
		}
	}
}

// pathCases makes n random paths on one random document.
func (s *shard) pathCases(kinds stepW, n int) {
	r := s.r
	doc := r.anyDoc()
	for docSize(doc) > 80 {
		doc = r.anyDoc()
	}
	d := s.newDoc(doc)
	for i := 0; i < n; i++ {
		g := r.pathGen(doc, kinds)
		s.once(g.path(r.in(1, pick(r, 2, 3, 3, 5))), d)
	}
}

// flat makes an array of n distinct leaves.
func flat(n int) []V {
	a := make([]V, n)
	for i := range a {
		a[i] = float64(i)
	}
	return a
}

// keyed makes an object with these members, with distinct values.
func keyed(ks ...string) map[string]V {
	m := map[string]V{}
	for i, k := range ks {
		m[k] = float64(i + 100)
	}
	return m
}

func dotOf(k string) string {
	if isID(k, true) {
		return "." + k
	}
	return "[" + quoteLit(k) + "]"
}

// decimal names about the given integer
func decNames(ns ...int64) []string {
	var ks []string
	for _, n := range ns {
		ks = append(ks, strconv.FormatInt(n, 10))
	}
	return ks
}

func (s *shard) childCases() {
	r := s.r
	// members: odd names among similar ones
	k := r.word()
	ks := append(r.similar(k), k)
	if r.p(30) {
		ks = ks[:len(ks)-1] // absent
	}
	var inner V = keyed(ks...)
	if r.p(20) {
		inner = []V{keyed(ks...), keyed(r.similar(k)...), flat(3), "x", nil, 1.0, true}
		for i := 0; i < 2; i++ {
			s.once("$[*]"+r.spellKey(k), s.newDoc(inner))
		}
	}
	d := s.newDoc(inner)
	s.once("$"+r.spellKey(k), d)
	// values that are falsy
	d = s.newDoc(map[string]V{k: pick[V](r, nil, false, 0.0, "", []V{}, map[string]V{}), "other": 1.0})
	s.once("$"+r.spellKey(k), d)
	s.once("$"+r.spellKey(k)+pick(r, ".*", "[*]", "[0]", ".a", "['a','b']"), d)
	// indices on arrays of every small length and on objects with decimal names
	l := pick(r, r.n(6), r.n(20), 100, 300)
	n := int64(r.in(-l-2, l+2))
	if r.p(30) {
		n = r.int()
	}
	if n == math.MinInt64 || n == -math.MaxInt64 {
		n += 2
	}
	ns := []int64{0, 1, -1, n}
	if n < math.MaxInt64-2 && n > math.MinInt64+2 {
		ns = append(ns, n+1, n-1)
	}
	if n != math.MinInt64 {
		ns = append(ns, -n)
	}
	ns = append(ns, n&0xffffffff, n&0x7fffff, int64(int32(n)), n&0x3fffff, int64(int32(n<<9))>>9, int64(float64(n>>1)))
	obj := keyed(decNames(ns...)...)
	if r.p(30) {
		delete(obj, strconv.FormatInt(n, 10))
	}
	d = s.newDoc(map[string]V{"a": flat(l), "o": obj, "s": "abc", "z": nil, "n": 5.0, "t": true, "e": []V{}})
	t := strconv.FormatInt(n, 10)
	for _, k := range []string{"a", "o"} {
		s.once("$."+k+"["+t+"]", d)
		s.once("$."+k+"."+t, d)
		s.once("$."+k+"['"+t+"']", d)
	}
	s.once("$.*["+t+"]", d)
	s.once("$.*."+t, d)
	s.once("$.*"+pick(r, ".*", "[*]", ".length", "['0']", ".a", "[0,1]", "[-1,0,'a']", "[:]", "[-1]", ".-1"), d)
	// unions, with selectors that select nothing and duplicates
	doc := V([]V{flat(r.n(5)), obj, keyed("a", "b", "c"), "str", nil, 3.0, []V{}, map[string]V{}, []V{[]V{1.0}, 2.0}})
	d = s.newDoc(doc)
	var el []string
	for i := r.in(2, 6); i > 0; i-- {
		switch r.n(7) {
		case 0:
			el = append(el, "'"+t+"'")
		case 1, 2:
			el = append(el, strconv.Itoa(r.in(-4, 4)))
		case 3:
			el = append(el, pick(r, "a", "b", "c", "'a'", "\"b\"", "zz", "'zz'"))
		case 4:
			el = append(el, pick(r, ":", "1:", ":-1", "::-1", "5:", "0:2", "::2", "2:1", "::0"))
		case 5:
			el = append(el, t)
		default:
			el = append(el, r.quote(pick(r, "a", "b", "0", "1", "-1", "length")))
		}
		if r.p(20) {
			el = append(el, el[r.n(len(el))])
		}
	}
	s.once("$[*]["+strings.Join(el, ",")+"]", d)
	s.once("$["+strings.Join(el, ",")+"]", s.newDoc(pick[V](r, flat(4), obj, keyed("a", "b"), "abc", nil)))
	s.once("$[*]["+strings.Join(el, ",")+"]"+pick(r, ".*", "[0]", "[*][0]", "[-1,0]"), d)
}

// word gives a member name.
func (r *R) word() string {
	switch r.n(4) {
	case 0:
		return oddKeys[r.n(len(oddKeys))]
	case 1:
		return plainKeys[r.n(len(plainKeys))]
	case 2:
		return words[r.n(len(words))]
	default:
		return r.str()
	}
}

// similar gives names easily taken for k.
func (r *R) similar(k string) []string {
	ks := []string{k + "a", k + " ", " " + k, k + "\x00", strings.ToUpper(k), strings.ToLower(k), "'" + k + "'", k + k, strconv.Quote(k)}
	if len(k) > 0 {
		ks = append(ks, k[1:], k[:len(k)-1], "_"+k[1:])
	}
	ks = append(ks, strings.ReplaceAll(k, "\\", ""), strings.ReplaceAll(k, "/", "\\/"), strings.TrimSpace(k), strings.ReplaceAll(k, "-", ""))
	var out []string
	for _, x := range ks {
		if x != k {
			out = append(out, strings.ToValidUTF8(x, "\ufffd"))
		}
	}
	return out
}

// spellKey selects the member k in one of the possible ways.
func (r *R) spellKey(k string) string {
	if isID(k, true) {
		switch r.n(4) {
		case 0:
			return "." + k
		case 1:
			return "[" + k + "]"
		case 2:
			return "[ " + k + "\t]"
		}
	}
	return "[" + r.quote(k) + "]"
}

// ---- slices ----

func bnd(n int) string {
	if n == 99 {
		return ""
	}
	return strconv.Itoa(n)
}

func (s *shard) sliceExhaustive() {
	var arrays []V
	for l := 0; l <= 5; l++ {
		arrays = append(arrays, flat(l))
	}
	d := s.newDoc(arrays)
	bs := []int{99, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7}
	st := []int{99, -6, -5, -3, -2, -1, 0, 1, 2, 3, 5, 6}
	i := 0
	for _, a := range bs {
		for _, b := range bs {
			for _, c := range st {
				i++
				if !s.mine(i) {
					continue
				}
				p := bnd(a) + ":" + bnd(b)
				if c != 99 || i%7 == 0 {
					p += ":" + bnd(c)
				}
				s.once("$[*]["+p+"]", d)
			}
		}
	}
}

func (r *R) bigBound(l int) string {
	switch r.n(10) {
	case 0, 1:
		return ""
	case 2:
		return "9223372036854775807"
	case 3:
		return "-9223372036854775806"
	case 4:
		n := r.int()
		if n == math.MinInt64 || n == -math.MaxInt64 {
			n += 2
		}
		return strconv.FormatInt(n, 10)
	case 5:
		n := math.MaxInt64 - int64(r.n(2*l+3))
		if r.p(50) {
			n = -n + 1
		}
		return strconv.FormatInt(n, 10)
	default:
		return strconv.Itoa(r.in(-l-2, l+2))
	}
}

func (s *shard) sliceCases() {
	r := s.r
	l := pick(r, r.n(8), r.n(8), r.n(30), 64, 129, 1000)
	if l == 1000 && !r.p(10) {
		l = 7
	}
	d := s.newDoc([]V{flat(l), keyed("0", "1", "a", "b"), "string", nil, 7.0, true, flat(l / 2), []V{flat(2), flat(3)}})
	sl := func() string {
		t := r.bigBound(l) + ":" + r.bigBound(l)
		if r.p(75) {
			if r.p(70) {
				t += ":" + pick(r, "", "1", "-1", "2", "-2", "3", "-3", "0", strconv.Itoa(r.in(-l-1, l+1)))
			} else {
				t += ":" + r.bigBound(l)
			}
		}
		return t
	}
	for i := 0; i < 6; i++ {
		s.once("$[*]["+sl()+"]", d)
		s.once("$[0]["+sl()+"]", d)
		s.once("$[*]["+sl()+","+pick(r, sl(), "0", "-1", "a", "'b'", "0,"+sl())+"]", d)
		s.once("$["+sl()+","+sl()+"]"+pick(r, "", "[0]", "[*]", "["+sl()+"]"), s.newDoc([]V{flat(3), flat(1), keyed("a"), []V{}}))
		s.once("$.."+"["+sl()+"]", d)
	}
	s.once("$[*]["+sl()+"]["+sl()+"]", d)
	s.once("$["+sl()+"]["+sl()+"]", d)
	s.once("$["+sl()+"]"+pick(r, ".a", "[*]", "..[*]", "[?(@)]", "[0]"), d)
}

// ---- descent ----

// tree makes a nested document with distinct leaves.
func (r *R) tree(depth, width int) V {
	return r.doc(docOpt{depth: depth, width: width, odd: pick(r, 0, 0, 15), distinct: true, arrays: pick(r, 20, 50, 80), leaf: pick(r, 5, 20, 40)})
}

func (s *shard) descentCases() {
	r := s.r
	doc := r.tree(r.in(1, 5), r.in(1, 4))
	for docSize(doc) > 150 {
		doc = r.tree(r.in(1, 5), r.in(1, 4))
	}
	d := s.newDoc(doc)
	acc := map[string]bool{}
	keysOf(doc, acc)
	acc["a"] = true
	ks := sortedSet(acc)
	key := func() string { return ks[r.n(len(ks))] }
	desc := func() string {
		switch r.n(12) {
		case 0, 1:
			k := key()
			if isID(k, true) {
				return ".." + k
			}
			return "..[" + quoteLit(k) + "]"
		case 2:
			return "..*"
		case 3:
			return "..[*]"
		case 4:
			return "..[" + strconv.Itoa(r.in(-3, 3)) + "]"
		case 5:
			return ".." + strconv.Itoa(r.in(-2, 2))
		case 6:
			return "..[" + pick(r, "1:", ":-1", "::-1", ":", "-2:", "::2") + "]"
		case 7:
			return "..[" + quoteLit(key()) + "," + pick(r, "0", "-1", "1:", quoteLit(key())) + "]"
		case 8:
			return "..[?(" + pick(r, "@.length > 1", "@.length == 0", "true", "false", "null", "@.length", "@['"+"a"+"']", "!@.a", "@[0]", "@ == []", "@.length < 2 && @.length > 0", "@['a'] || @[1]") + ")]"
		case 9:
			return "..[(" + pick(r, "@.length-1", "'a'", "0", "@.length", "@.a", "$.a", "@[0]", "-1") + ")]"
		case 10:
			return "..(" + pick(r, "@.length-1", "'a'", "0", "'b'") + ")"
		default:
			return "..[" + quoteLit(key()) + "]"
		}
	}
	for i := 0; i < 6; i++ {
		s.once("$"+desc(), d)
	}
	s.once("$"+desc()+desc(), d)
	s.once("$"+desc()+pick(r, "[*]", ".*", "[0]", "[?(@)]", ".a", "[0,1]"), d)
	s.once("$"+pick(r, ".*", "[*]", "[0]", "[?(@)]", ".a", "[0,0]", "[0,'a']")+desc(), d)
	s.once("$.zz"+desc(), d)
	// deep chains
	if r.p(20) {
		var v V = "leaf"
		for i := r.in(5, 40); i > 0; i-- {
			if r.p(50) {
				v = []V{v}
			} else {
				v = map[string]V{"a": v}
			}
		}
		d := s.newDoc(v)
		s.once("$"+desc(), d)
		s.once("$..a", d)
		s.once("$..*", d)
	}
}

func sortedSet(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// ---- filters ----

var allKinds = []V{nil, false, true, 0.0, 1.0, -1.5, "", "a", "0", []V{}, []V{0.0}, []V{[]V{}}, map[string]V{}, map[string]V{"a": 1.0}, map[string]V{"a": nil}, map[string]V{"a": false}, []V{nil}, map[string]V{"b": []V{1.0, 2.0}}}

func (s *shard) filterCases() {
	r := s.r
	conds := []string{"true", "false", "null", "1", "0", "''", "'a'", "@", "!@", "!!@", "@ == null", "@ != null", "@ == false", "@ == 0", "@ == ''", "@.a", "!@.a", "@.a == null", "@.a != null",
		"@.length", "@.length == 0", "@.length > 0", "@ == $", "@ == $[0]", "@ != $[0]", "$", "$[0]", "@[0]", "@[0] == 0", "@ < 1", "@ >= 0", "[]", "[1]", "@ == []", "@ || true", "@ && true", "@ || false", "@.a || @.b", "@.b[1]", "-@", "@ in $", "@ in [null,0,'a']", "@ nin [1,'',false]", "1/0", "1/0 == 1", "@.x.y.z", "!@.x.y", "keys(@)", "length(@)", "contains(@,0)", "abs(@) > 1", "nothing", "@ =~ /./ || true && false"}
	// every kind of child, in arrays and objects
	n := r.in(0, 8)
	arr := make([]V, n)
	obj := map[string]V{}
	for i := range arr {
		arr[i] = allKinds[r.n(len(allKinds))]
		obj["k"+strconv.Itoa(i)] = allKinds[r.n(len(allKinds))]
	}
	c := conds[r.n(len(conds)-1)]
	s.once("$[?("+c+")]", s.newDoc(arr))
	s.once("$[?("+c+")]", s.newDoc(obj))
	s.once("$[?("+c+")]", s.newDoc(allKinds[r.n(len(allKinds))]))
	mixed := []V{arr, obj, nil, "str", 3.0, []V{}, map[string]V{}, true}
	d := s.newDoc(mixed)
	c = conds[r.n(len(conds)-1)]
	s.once("$[*][?("+c+")]", d)
	s.once("$[?("+c+")][?("+conds[r.n(len(conds)-1)]+")]", d)
	s.once("$..[?("+c+")]", d)
	s.once("$..*[?("+c+")]", d)
	s.once("$[?("+c+")]"+pick(r, "[0]", ".a", "[*]", "[:]", "..*", "[0,1]", "['a']"), d)
	s.once("$[?("+c+")]"+pick(r, "[(@)]", "[(@.length-1)]", "..[(@.length-1)]", "[(@||0)]", "[(0)]", "[($.length-@.length)]", "[(@==null&&'a')]")+pick(r, "", "", "[*]", "[?("+c+")]"), d)
	s.once("$"+pick(r, ".zz", "[9]", "[5]", "[6]", "[2]", "[5:7]", "[2:5]")+"[?("+c+")]", d)
	g := r.exprGen(mixed)
	for i := 0; i < 4; i++ {
		g.cur = arr
		if n > 0 {
			g.cur = arr[r.n(n)]
		}
		s.once("$[0,1][?("+g.cond(r.in(1, 3))+")]", d)
	}
	// long arrays: a producer and a loop
	if r.p(20) {
		m := pick(r, 50, 200, 500)
		d := s.newDoc(flat(m))
		s.once(fmt.Sprintf("$[?(@ %% %d == %d)]", r.in(2, 7), r.n(3)), d)
		s.once(fmt.Sprintf("$[?(@ > %d)]", r.n(m)), d)
		s.once("$[?(@ == $["+strconv.Itoa(r.n(m))+"])]", d)
	}
}

// ---- composition ----

func (s *shard) composeCases() {
	r := s.r
	// nested arrays and objects with distinct leaves, long enough paths
	doc := r.tree(r.in(2, 4), r.in(2, 4))
	for docSize(doc) > 120 {
		doc = r.tree(r.in(2, 4), r.in(1, 4))
	}
	d := s.newDoc(doc)
	st := func() string {
		return pick(r, "[*]", ".*", "[*]", ".*", "[0,1]", "[1,0]", "[0,0]", "['a','b']", "['b','a']", "[a,0]", "[::-1]", "[1:]", "[?(true)]", "[?(@)]", "..*", "[-1,0]", "[0:2,1:]", "..[0]", "..a", "..[?(@)]", ".a", "[0]", "[(0)]", "['a',0,'a']", "[?(@.length > 0)]", "[?(@.length)]",
			"[(@)]", "[(@||0)]", "[(@.length-1)]", "[(@==null&&0)]", "..[(@.length-1)]", "[?(@)][(@||0)]", "[?(@!=0)][(@==null&&'a')]")
	}
	for i := 0; i < 8; i++ {
		p := "$"
		nest := 0
		for n := r.in(2, 5); n > 0; n-- {
			x := st()
			if strings.HasPrefix(x, "..") {
				if nest++; nest > 2 {
					continue
				}
			}
			p += x
		}
		s.once(p, d)
	}
}

// ---- computed subscripts ----

func (s *shard) computedCases() {
	r := s.r
	ks := []string{"a", "b", "0", "1", "2", "-1", "1.5", "true", "null", "", "4194304", "9223372036854775807", "length", "k", "x y"}
	arr := flat(r.in(0, 6))
	doc := map[string]V{"arr": arr, "obj": keyed(ks...), "k": pick[V](r, "a", "b", 1.0, 2.0, 0.0, -1.0, "1", "zz", 1.9, 4194304.0, "", 1e10), "n": float64(r.in(-3, 6)), "s": "abc", "z": nil,
		"idx": []V{2.0, 0.0, "a", "1"}, "in": map[string]V{"k": "b", "obj": keyed("a", "b", "k"), "arr": []V{flat(2), flat(3)}}, "w": []V{[]V{1.0, "a", nil}, []V{"p", "q"}, []V{}, "str", keyed("a", "1")}}
	d := s.newDoc(doc)
	exprs := []string{"'a'", "\"b\"", "0", "1", "-1", "$.k", "$.n", "$.idx[0]", "$.idx[2]", "$.arr.length-1", "$.zz", "$.k.zz", "@", "@.length", "@.length-1", "1+1", "$.n+1", "$.n-1", "'zz'", "1/0", "$.arr[0]", "$.idx[1]", "-$.n", "$.n*2", "1.0", "2.0", "0.0", "1.5", "-1.0", "$.arr.length", "length('ab')", "length($.arr)", "to_number('1')", "max(0,1)", "$['k']", "$.in.k", "a", "length", "4194304", "9223372036854775807", "2147483648", "4194304+0", "!@", "$.s", "'x y'", "''", "floor(1.9)", "$.n/2", "$.n%3", "abs($.n)", "sum([1,1])"}
	e := exprs[r.n(len(exprs))]
	e2 := exprs[r.n(len(exprs))]
	for _, b := range []string{"$.arr", "$.obj", "$.w[*]", "$.*", "$.in.arr[*]"} {
		s.once(b+"[("+e+")]", d)
		s.once(b+".("+e+")", d)
	}
	s.once("$..[("+e+")]", d)
	s.once("$..("+e2+")", d)
	s.once("$..[("+e2+")][("+e+")]", d)
	s.once("$.zz[("+e+")]", d)
	s.once("$[("+pick(r, "'arr'", "'obj'", "'in'", "'w'", "'a'+'b'", "$.k")+")][("+e+")]", d)
	// anew for each container, with a key that depends on it
	t := r.tree(3, 3)
	if docSize(t) < 100 {
		d := s.newDoc([]V{t, keyed("k"), map[string]V{"k": "a", "a": "A", "b": "B"}, map[string]V{"k": "b", "a": "A2", "b": "B2"}, []V{1.0, "x", "y"}, []V{2.0, "x", "y"}, []V{0.0}})
		s.once("$..[("+pick(r, "@.k", "@[0]", "@.length-1", "@['k']", "@.length-2", "@[@[0]]", "-@[0]", "$[2].k", "@.a", "@.k && 'a'", "@.k || 0")+")]", d)
		s.once("$..[?(@.k)][("+pick(r, "$[2].k", "'a'", "@", "@.k", "$[3].k")+")]", d)
		s.once("$[*][("+pick(r, "@.k", "@[0]", "@.length-1", "@", "!@ && 'a'", "@ || 'a'", "$[2].k")+")]", d)
	}
	g := r.exprGen(doc)
	for i := 0; i < 5; i++ {
		s.once(pick(r, "$.obj", "$.arr", "$.in", "$.w", "$", "$.w[*]", "$.*")+"[("+g.keyExpr(false)+")]", d)
		s.once(pick(r, "$", "$.in", "$.w")+"..[("+g.keyExpr(true)+")]", d)
	}
}

// ---- errors ----

var badExprs = []string{"nosuch()", "nosuch(1)", "abs()", "abs(1,2)", "length()", "length(@,1)", "contains('a')", "contains(@,1,2)", "keys(1,2)", "tokenize('a')", "sum(1,2)", "starts_with('a')", "ends_with()", "avg()", "prod([1],[2])", "floor(1,2)", "ceil()", "to_number('1','2')",
	"1 =~ /a/", "@ =~ /a/", "@.a =~ /a/", "'a' =~ 1", "'a' =~ @", "'a' =~ '('", "'a' =~ '[z'", "@ =~ '*'", "'a' =~ null", "'a' =~ []", "null =~ /a/", "[] =~ /a/", "1 in 2", "1 in @", "@ in 'abc'", "1 nin $", "1 in null", "1 nin {}"[0:6] + "'x'", "@.b in @.a", "@ =~ @", "1 ~ 'a'", "'a' ~ true", "Abs(1)", "1 in 'a'", "@.a nin @.b", "max(nosuch(1),2)", "[nosuch()]", "-nosuch()", "!nosuch()", "nosuch().a", "nosuch()[0]", "@[nosuch()]",
	// nothing of the kind
	"max()", "min()", "@.x.y =~ /a/", "1 in @.zz", "@.zz in 1", "'a' =~ @.zz", "1/0 =~ /x/", "abs('x')", "abs(null)", "keys(1)", "sum('x')", "'a' =~ /a/", "'a' =~ 'b'", "1 in [1]", "1 in []", "tokenize('a','(')", "contains(1,2)", "1/0", "-'a'", "@.a.b.c", "@[-9]", "$.zz[0]", "length(1)", "to_number('x')", "max('a',1)", "foo", "@ == foo"}

func (s *shard) errorCases() {
	r := s.r
	bad := func() string { return badExprs[r.n(len(badExprs))] }
	guard := func(e string) string {
		switch r.n(9) {
		case 0:
			return e
		case 1:
			return "@ && " + e
		case 2:
			return "@ || " + e
		case 3:
			return e + " || true"
		case 4:
			return e + " && false"
		case 5:
			return "false && " + e
		case 6:
			return "true || " + e
		case 7:
			return "[1," + e + "]"
		default:
			return "length(" + e + ") == 1"
		}
	}
	kids := make([]V, r.n(5))
	for i := range kids {
		kids[i] = pick[V](r, "abc", "x", 1.0, nil, true, []V{1.0}, map[string]V{"a": "x", "b": []V{"x"}}, map[string]V{"a": 1.0}, map[string]V{"b": "x", "a": []V{}}, "", []V{}, "(", map[string]V{})
	}
	obj := map[string]V{}
	for i, k := range kids {
		obj["m"+strconv.Itoa(i)] = k
	}
	d := s.newDoc(kids)
	do := s.newDoc(obj)
	nested := s.newDoc([]V{kids, obj, []V{}, map[string]V{}, "s", nil})
	for i := 0; i < 4; i++ {
		e := guard(bad())
		s.once("$[?("+e+")]", d)
		s.once("$[?("+e+")]", do)
		s.once("$[*][?("+e+")]", nested)
		s.once("$..[?("+e+")]", pick(r, d, do, nested))
		s.once("$"+pick(r, "[2]", "[3]", "[4]", "[5]", ".zz", "[9]", "[2:]", "[0]", "[1]")+"[?("+e+")]", nested)
		s.once("$[("+e+")]", pick(r, d, do))
		s.once("$.zz[("+e+")]", do)
		s.once("$..[("+e+")]", pick(r, d, do, nested))
		s.once("$[?("+pick(r, "true", "false", "@", "!@")+")][?("+e+")]", nested)
		s.once("$[?("+e+")]"+pick(r, ".zz", "[*]", "[?(true)]", "..a"), d)
	}
	// only one candidate of many fails
	n := r.in(1, 12)
	at := r.n(n)
	arr := make([]V, n)
	for i := range arr {
		arr[i] = "s" + strconv.Itoa(i)
	}
	arr[at] = pick[V](r, 1.0, nil, true, []V{}, map[string]V{})
	d = s.newDoc(arr)
	s.once("$[?(@ =~ /s/)]", d)
	s.once(fmt.Sprintf("$[%d:][?(@ =~ /s1/)]", r.n(n+1)), d)
	s.once(fmt.Sprintf("$[%d:][*]", r.n(n+1)), d)
	s.once("$[?(@ != "+pick(r, "1", "null", "true")+" && @ =~ /1/)]", d)
	s.once("$[?(1 in @)]", d)
	s.once("$[*][?(@ =~ /s/)]", s.newDoc([]V{arr[:at], arr[at:]}))
	s.once("$[?(@ =~ $.p)]", s.newDoc(map[string]V{"p": pick(r, "(", "[", "s", "a**", "\\", "s$", "+", "x{2,1}"), "q": "s1"}))
}

// bigDescent: documents nested deeply, or with very many containers.
func (s *shard) bigDescent() {
	r := s.r
	var v V = pick[V](r, map[string]V{"a": 1.0}, []V{map[string]V{"a": 2.0}}, []V{}, map[string]V{"a": []V{7.0}})
	n := pick(r, 60, 129, 260, 520, 1030)
	kind := r.n(4)
	if kind == 3 { // wide, not deep
		a := make([]V, n)
		for i := range a {
			a[i] = pick[V](r, v, []V{float64(i)}, map[string]V{"a": float64(i)}, []V{}, map[string]V{}, float64(i))
		}
		v = a
	} else {
		for i := 0; i < n; i++ {
			switch {
			case kind == 0:
				v = []V{v}
			case kind == 1:
				v = map[string]V{"b": v}
			case r.p(40):
				v = []V{float64(i), v, nil}
			case r.p(50):
				v = []V{v, "x"}
			default:
				v = map[string]V{"b": v}
			}
			if i%50 == 49 && r.p(50) {
				v = map[string]V{"b": v, "a": float64(i)}
			}
		}
	}
	d := s.newDoc(v)
	for _, t := range []string{"$..a", "$..[0].a", "$..['a',7]", "$..[?(@.a)].a", "$..[-1].a", "$..[(1)].zz", "$..b.a", "$..[?(@ == [])]", "$..[1:].a"} {
		if r.p(45) {
			s.once(t, d)
		}
	}
}

// bigFilter: very many children.
func (s *shard) bigFilter() {
	r := s.r
	n := pick(r, 70, 130, 260, 520, 1030)
	a := make([]V, n)
	m := map[string]V{}
	for i := range a {
		a[i] = pick[V](r, float64(i), nil, "s"+strconv.Itoa(i%7), []V{}, map[string]V{"a": float64(i)}, i%2 == 0)
		m["k"+strconv.Itoa(i)] = float64(i % 40)
	}
	d := s.newDoc(map[string]V{"l": a, "o": m})
	s.once("$.l[?("+pick(r, "@", "!@", "@ == null", "@.a", "@ > 3", "@ =~ 's3'", "true", "@.a > 100")+")]", d)
	s.once("$.l[?("+pick(r, "@", "@.a", "@ == 's1'", "@ in [1,2,3]")+")]"+pick(r, "", "[*]", ".a", "[?(@)]"), d)
	s.once("$.o[?("+pick(r, "@ == 7", "@ > 38", "@ == 39 || @ == 0", "@ < 1")+")]", d)
}

// bigCompose: several steps over many values at once.
func (s *shard) bigCompose() {
	r := s.r
	n := pick(r, 9, 17, 20, 33, 40, 65, 70, 130, 260, 520, 1030)
	a := make([]V, n)
	mixed := r.p(50)
	for i := range a {
		f := float64(i)
		a[i] = map[string]V{"a": f}
		if mixed {
			a[i] = pick[V](r, []V{f, []V{f + 0.5}}, map[string]V{"a": f}, map[string]V{"a": []V{f}}, []V{f, f}, f, []V{}, nil)
		}
	}
	doc := V(a)
	if r.p(40) {
		doc = map[string]V{"a": a}
	}
	d := s.newDoc(doc)
	for i := 0; i < 3; i++ {
		p := "$"
		if _, ok := doc.(map[string]V); ok && r.p(80) {
			p += pick(r, ".a", ".*", "..a", "['a','a']")
		}
		p += pick(r, "..a", "..[0]", "..*", "..[?(true)]", "..[1,0]", "..['a',0]", "[*]", "[*][0]", "[::2]", "[::-1]", "[?(@.a)]", "[1:]", "[*][*]", "[?(true)]", "..[-1]", "..[?(@.a)]", "..[(0)]", "..[1:]")
		if n < 100 || r.p(30) {
			p += pick(r, "", "", ".a", "[0]", "[*]", "[1,0]", "[?(@)]", "[::-1]", "['a',0]")
		}
		s.once(p, d)
	}
}
