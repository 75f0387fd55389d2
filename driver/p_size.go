package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"

	"github.com/forsyth/jsonpath"
)

func init() {
	props["C27"] = func(s *shard) {
		i := 0
		for _, n := range s.sizes() {
			for k := 0; k < sizeKinds; k++ {
				i++
				if s.mine(i) {
					s.sizeCase(k, n)
				} else {
					s.r.u64()
				}
			}
		}
		big := []int{20000}
		if !s.quick() {
			big = []int{20000, 33000, 66000, 132000}
		}
		for _, n := range big {
			for _, k := range []int{1, 2, 3, 5, 9, 10, 11, 16} {
				i++
				if s.mine(i) {
					s.sizeCase(k, n)
				} else {
					s.r.u64()
				}
			}
		}
		s.huge()
		for k, n := range []int{40, 70, 130, 260, 300, 520, 600, 1030} {
			i++
			if !s.quick() {
				n += n/2 + k
			}
			if s.mine(i) {
				s.manyCompiled(n)
				s.manyEvals(n)
				for j := 0; j < 4; j++ {
					s.overSession(1, 70000+100*k)
				}
			}
		}
		for s.more() {
			s.independence()
			for i := 0; i < 4; i++ {
				s.lookalikes()
			}
		}
	}
}

func (s *shard) sizes() []int {
	if s.quick() {
		return []int{3, 17, 130, 260, 600, 1100, 2100, 4200}
	}
	return []int{2, 5, 31, 33, 63, 65, 127, 129, 255, 257, 300, 511, 513, 1000, 1023, 1025, 2047, 2049, 4095, 4097, 8191, 8193, 10000}
}

const sizeKinds = 17

// hund makes [100, 101, ...].
func hund(n int) []V {
	a := make([]V, n)
	for i := range a {
		a[i] = float64(100 + i)
	}
	return a
}

// sizeCase: a path of a certain size whose meaning is that of its small parts.
func (s *shard) sizeCase(kind, n int) {
	r := newR(s.r.u64())
	rep := strings.Repeat
	doc := map[string]V{"a": hund(6), "b": keyed("x", "y", "0", "1"), "s": "str", "n": 3.0}
	d := s.newDoc(doc)
	switch kind {
	case 0: // steps down a deep document
		if n > 2100 {
			n = 2100
		}
		var v V = []V{"end"}
		var sb strings.Builder
		sb.WriteString("$")
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				v = []V{v, float64(i)}
			} else {
				v = map[string]V{"k": v}
			}
		}
		for i := n - 1; i >= 0; i-- {
			if i%2 == 0 {
				sb.WriteString(pick(r, "[0]", "[(0)]", "[0]", "[?(@.length)]", "[:1]"))
			} else {
				sb.WriteString(pick(r, ".k", "['k']", ".*", "[*]", "[k,zz]"))
			}
		}
		s.once(sb.String(), s.newDoc(v))
		s.once(sb.String()+"[*]", s.newDoc(v))
	case 1: // union elements: few of them there
		var el []string
		for i := 0; i < n; i++ {
			switch {
			case r.p(3) || i == n-1:
				el = append(el, pick(r, "0", "5", "-1", "2", "3", "0:2", "-2:"))
			case i%2 == 0:
				el = append(el, strconv.Itoa(100+i))
			default:
				el = append(el, "'m"+strconv.Itoa(i)+"'")
			}
		}
		s.once("$.a["+strings.Join(el, ",")+"]", d)
		s.once("$.*["+strings.Join(el, ",")+"]", d)
		s.once("$..["+strings.Join(el, ",")+"]", s.newDoc([]V{[]V{1.0, 2.0, map[string]V{"m1": 7.0}}, map[string]V{"m1": 5.0}}))
	case 2: // array elements, distinct constants
		el := make([]string, n)
		for i := range el {
			el[i] = pick(r, strconv.Itoa(5000000+i), strconv.Itoa(i), "'t"+strconv.Itoa(i)+"'", strconv.Itoa(i)+".5")
		}
		vals := []V{}
		for i := 0; i < 12; i++ {
			j := r.n(n + 3)
			if i == 0 {
				j = n - 1
			}
			vals = append(vals, pick[V](r, float64(5000000+j), float64(j), "t"+strconv.Itoa(j), float64(j)+0.5))
		}
		l := "[" + strings.Join(el, ",") + "]"
		s.once("$[?(@ in "+l+")]", s.newDoc(vals))
		s.once("$[?("+l+".length == "+strconv.Itoa(n)+")]", s.newDoc([]V{1.0}))
		s.once("$[?(@ == "+l+"["+strconv.Itoa(r.n(n))+"])]", s.newDoc(vals))
		s.once("$[?(@ == "+l+"[-1])]", s.newDoc(vals))
	case 3: // sum
		s.once("$.a[(1"+rep("+1", n)+"-"+strconv.Itoa(n-1)+")]", d)
		s.once("$.n[?(1)]", d)
		s.once("$.*[?(1"+rep(" + 1", n)+" == "+strconv.Itoa(n+1)+")]", d)
	case 4: // parentheses
		if n > 2500 {
			n = 2500
		}
		s.once("$.a["+rep("(", n)+"2"+rep(")", n)+"]", d)
		s.once("$.a[?("+rep("(", n)+"@"+rep(")", n)+" == 102)]", d)
	case 5: // connectives
		var sb strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "@ == %d || ", 7000000+i)
		}
		s.once("$.a[?("+sb.String()+"@ == 102)]", d)
		s.once("$.a[?("+rep("true && ", n)+"@ > 102)]", d)
		s.once("$.a[?("+rep("false || ", n)+"@ < 102 || nosuch)]", d)
	case 6: // unary
		if n > 2500 {
			n = 2500
		}
		s.once("$.a[("+rep("-", n)+"1+2)]", d)
		s.once("$.a[?("+rep("!", n)+"@)]", d)
	case 7: // accesses
		if n > 1500 {
			n = 1500
		}
		var v V = []V{"end", 1.0}
		acc := ""
		var parts []string
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				v = []V{v, float64(i)}
				parts = append(parts, "[0]")
			} else {
				v = map[string]V{"k": v}
				parts = append(parts, pick(r, ".k", "['k']"))
			}
		}
		for i := n - 1; i >= 0; i-- {
			acc += parts[i]
		}
		s.once("$[?($"+acc+"[0] == 'end')]", s.newDoc(v))
		s.once("$[($"+acc+".length-2)]", s.newDoc(v))
	case 8: // calls
		if n > 2500 {
			n = 2500
		}
		s.once("$.a["+rep("(abs", 1)+"("+rep("abs(", n)+"-2"+rep(")", n)+"))]", d)
		args := make([]string, n)
		for i := range args {
			args[i] = strconv.Itoa((i*7919)%n - n/2)
		}
		s.once("$.a[?(max("+strings.Join(args, ",")+") == "+strconv.Itoa(n-1-n/2)+")]", d)
		s.once("$.a[?(min("+strings.Join(args, ",")+") == "+strconv.Itoa(-(n/2))+")]", d)
	case 9: // names and strings of size n
		name := rep("n", n)
		m := map[string]V{name: 1.0, name[:n-1]: 2.0, name + "n": 3.0, "a": name}
		s.once("$."+name, s.newDoc(m))
		s.once("$['"+name+"']", s.newDoc(m))
		s.once("$[?(@ == '"+name+"')]", s.newDoc(m))
		s.once("$['"+rep("\\u006e", n)+"']", s.newDoc(m))
	case 10: // white space
		w := rep(" ", n)
		s.once("$"+w+"."+w+"a"+w+"["+w+"1"+w+"]"+w, d)
		s.once("$.a[?("+w+"@"+w+"=="+w+"102"+w+")]", d)
	case 11: // slices in a union
		el := make([]string, n)
		for i := range el {
			el[i] = fmt.Sprintf("%d:%d", 6+i, 9+i)
		}
		el[r.n(n)] = "1:3"
		el[n-1] = "-2:"
		s.once("$.a["+strings.Join(el, ",")+"]", d)
	case 12: // filters and loops, one after the other, in one path
		if n > 300 {
			n = 300
		}
		var v V = "x"
		p := ""
		for i := 0; i < n; i++ {
			v = []V{v}
			p += pick(r, "[*]", "[?(true)]", "[0:1]", "[0,5]", "[?(@ != 12345678)]")
		}
		s.once("$"+p, s.newDoc(v))
	case 13: // a document of size n
		a := hund(n)
		da := s.newDoc(a)
		s.once("$[*]", da)
		s.once("$[?(@ >= "+strconv.Itoa(100+n-2)+")]", da)
		s.once(fmt.Sprintf("$[%d:%d]", n-3, n+5), da)
		s.once("$[::-1][?(@)]", da)
		if n <= 1100 {
			s.once("$..[?(@.length)]", s.newDoc([]V{a, a}))
		}
	case 14: // arrays in arrays
		if n > 1500 {
			n = 1500
		}
		s.once("$[?(@ == "+rep("[", n)+"1"+rep("]", n)+")]", s.newDoc([]V{1.0, "1", []V{1.0}, 2.0}))
		s.once("$[?(1 == "+rep("[", n)+"]"+rep("][0]", n-1)+"+1 || true)]", s.newDoc([]V{1.0}))
	case 15: // distinct regular expressions and strings
		if n > 300 {
			n = 300
		}
		var sb strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "@ =~ /^x%d$/ || @ == 'y%d' || ", i, i)
		}
		s.once("$[?("+sb.String()+"false)]", s.newDoc([]V{"x0", "x" + strconv.Itoa(n), "x" + strconv.Itoa(n-1), "y" + strconv.Itoa(n-1), "y", "x", "y" + strconv.Itoa(n/2)}))
	case 16: // computed subscripts
		var el []string
		for i := 0; i < n; i++ {
			el = append(el, fmt.Sprintf("%d*%d", i, i+1))
		}
		s.once("$.a[(["+strings.Join(el, ",")+"][1])]", d)
		s.once("$..[(["+strings.Join(el, ",")+"]["+strconv.Itoa(r.n(3))+"])]", s.newDoc([]V{hund(3), []V{hund(7)}}))
	}
}

// huge: programs longer than the machine can number, and just within: a result or a rejection, never a wrong one.
func (s *shard) huge() {
	if s.shard != 0 {
		return
	}
	sizes := []int{40000, 140000, 300000}
	if !s.quick() {
		sizes = append(sizes, 1100000, 2100000, 4200000, 8400000)
	}
	for _, n := range sizes {
		n := n
		// "robust" records the outcome only; a wrong answer is recorded as "wrong"
		expect := func(t string, doc V, want []V) {
			s.robust(func() outcome {
				o := evalOnce(t, doc)
				if o.R == "ok" && valsJSON(o.Vs) != valsJSON(want) {
					o.R = "wrong"
				}
				return o
			})
		}
		el := strings.Repeat("9,", n)
		expect("$["+el+"1]", hund(3), []V{101.0})
		expect("$[*]["+el+"1]", []V{hund(2), hund(3)}, []V{101.0, 101.0})
		expect("$[?(@ in ["+el+"101])]", hund(3), []V{101.0})
		if n <= 300000 {
			// everything there is, after so much else
			doc := []V{[]V{101.0, 102.0}, []V{103.0, map[string]V{"a": 104.0}}}
			in := "$[?(" + strings.Repeat("1+", n) + "1 > 0)]"
			for _, q := range []struct {
				p    string
				want []V
			}{
				{"[*]", []V{101.0, 102.0, 103.0, map[string]V{"a": 104.0}}},
				{"[?(@ > 101)]", []V{102.0, 103.0}},
				{"[?(@ > 101 && @ < 103 || @.a == 104)]", []V{102.0, map[string]V{"a": 104.0}}},
				{"..a", []V{104.0}},
				{"..[?(@.a)]", []V{map[string]V{"a": 104.0}}},
				{"[1,0]", []V{102.0, 101.0, map[string]V{"a": 104.0}, 103.0}},
				{"[-1:]", []V{102.0, map[string]V{"a": 104.0}}},
				{"[(0)]", []V{101.0, 103.0}},
				{"[?(@ in [102, 103])][?(true)]", []V{}},
				{"[?(@)][?(@ == 104)]", []V{104.0}},
				{"[*].a", []V{104.0}},
				{"[1]['a']", []V{104.0}},
				{"[?(@ =~ /1/ || abs(-102) == @)]", []V{102.0}},
				{".length", []V{}},
			} {
				if strings.Contains(q.p, "=~") {
					continue
				}
				expect(in+q.p, doc, q.want)
			}
			expect("$"+strings.Repeat("[*]", n)+"[?(@)]", []V{}, []V{})
			expect("$[?(@ == 99"+strings.Repeat("+1", n)+"-"+strconv.Itoa(n)+"+2)]", hund(3), []V{101.0})
		}
	}
}

// independence: many compiled paths at once, compiled in any order and again, agree with their texts.
func (s *shard) independence() {
	x := s.session()
	if x == nil {
		return
	}
	r := x.r
	for i := r.in(1, 3); i > 0; i-- {
		x.addDoc(r.aDoc(30))
	}
	var texts []string
	for i := r.in(2, 8); i > 0; i-- {
		t := x.aPath()
		if r.p(25) {
			t = r.mutate(t)
		}
		if r.p(15) {
			// constants shared between paths, in another order
			a, b := pick(r, "5000000", "'k'", "1.5", "4194304", "'a'"), pick(r, "6000000", "'l'", "2.5", "4194305", "'b'")
			texts = append(texts, "$[?(@ == "+a+" || @ == "+b+")]", "$[?(@ == "+b+" || @ == "+a+")]")
		}
		texts = append(texts, t)
	}
	if r.p(40) {
		var wg sync.WaitGroup
		for _, t := range texts {
			t := t
			wg.Add(1)
			go func() { defer wg.Done(); x.compile(t) }()
		}
		wg.Wait()
	} else {
		for _, t := range texts {
			x.compile(t)
		}
	}
	// MustCompile accepts the same
	for _, t := range texts {
		if r.p(50) {
			x.must(t)
		}
	}
	for i := r.in(4, 16); i > 0 && len(x.hs) > 0; i-- {
		h, d := r.n(len(x.hs)), r.n(len(x.docs))
		switch r.n(6) {
		case 0:
			x.text(h)
		case 1:
			if h := x.compile(x.texts[h]); h >= 0 {
				x.eval(h, d)
			}
		case 2:
			x.compile(texts[r.n(len(texts))])
		default:
			x.eval(h, d)
		}
	}
	for h := range x.hs {
		x.text(h)
	}
}

// manyCompiled keeps n compiled paths, all different, and comes back to some of them.
func (s *shard) manyCompiled(n int) {
	x := s.session()
	if x == nil {
		return
	}
	r := x.r
	x.addDoc(hund(7))
	x.addDoc(map[string]V{"k1": 1.0, "k2": []V{2.0, 3.0}, "a3": "a3", "v": 7.0})
	kind := r.n(7)
	for i := 0; i < n; i++ {
		k := kind
		if k == 6 {
			k = r.n(6)
		}
		switch k {
		case 0:
			x.compile(fmt.Sprintf("$[%d]", i))
		case 1:
			x.compile(fmt.Sprintf("$.k%d", i))
		case 2:
			x.compile(fmt.Sprintf("$[?(@ == %d)]", 100+i))
		case 3:
			x.compile(fmt.Sprintf("$[?(@ =~ 'a%d')]", i))
		case 4:
			x.compile(fmt.Sprintf("$[?(@ < %d.5)]", i))
		default:
			x.compile(fmt.Sprintf("$['k%d',%d]", i, i%7))
		}
	}
	back := []int{0, 1, 2, 3, 4, 5, 6, 7, n - 1, n - 2, n / 2}
	for i := 0; i < 30; i++ {
		back = append(back, r.n(n))
	}
	for _, h := range back {
		if h < len(x.hs) {
			x.text(h)
			x.eval(h, r.n(2))
			if r.p(20) {
				x.compile(x.texts[h])
			}
		}
	}
}

// manyEvals evaluates a path or two n times, over documents that change now and then.
func (s *shard) manyEvals(n int) {
	x := s.session()
	if x == nil {
		return
	}
	r := x.r
	x.addDoc(r.aDoc(12))
	x.addDoc(x.another(12))
	x.addDoc([]V{1.0, "a", []V{2.0}})
	for i := r.in(1, 3); i > 0 || len(x.hs) == 0; i-- {
		x.compile(x.aPath())
	}
	for i := 0; i < n; i++ {
		x.eval(r.n(len(x.hs)), r.n(len(x.docs)))
		if i%40 == 39 {
			for _, c := range x.hist[len(x.hist)-lesser(len(x.hist), 5):] {
				x.heldLook(c)
			}
			for d := range x.docs {
				x.look(d)
				r.change(x.docs[d])
				x.s.event("doc", fmt.Sprintf(`"d":%d,"v":%d`, d+1, x.s.docNo(x.docs[d])))
			}
			x.hist, x.held = nil, map[int]*heldRes{}
		}
	}
	for h := range x.hs {
		x.text(h)
	}
	if s.prop == "C08" {
		x.quiet()
	}
}

// must records MustCompile as a compilation that is accepted or (by a panic) rejected.
func (x *sess) must(t string) {
	p := func() (p *jsonpath.JSONPath) {
		defer func() {
			if recover() != nil {
				p = nil
			}
		}()
		return jsonpath.MustCompile(t)
	}()
	x.s.event("compile", fmt.Sprintf(`"h":%d,"p":%s,"ok":%v`, len(x.hs)+1, bytesJSON(t), p != nil))
	if p != nil {
		x.hs = append(x.hs, p)
		x.texts = append(x.texts, t)
	}
}

// lookalikes uses one text as constants of several kinds in one path: which kind each is must not depend on the others.
func (s *shard) lookalikes() {
	r := s.r
	t := pick(r, "5000000", "4194304", "9007199254740993", "-5000000", "8388608", "ab", "a", "length", "true", "null", "in", "keys", "1e3", "2.5", "5000000.5", "a-b", "x", "k")
	u := pick(r, t, t+"0", "b", "5000001", "l", "2.5", "keys", "x")
	num := func(t string) bool {
		_, err := strconv.ParseInt(t, 10, 64)
		return err == nil
	}
	words := func(t string) []string {
		l := []string{"@.v == '" + t + "'", "@.s =~ /" + t + "/", "@.s =~ '" + t + "'", "@['" + t + "'] == 1", "@.s == \"" + t + "\"", "contains(@.s, '" + t + "')", "[@.v] == ['" + t + "']", "tokenize(@.s, '" + t + "') == ['x','']", "'" + t + "' + 1", "starts_with('" + t + "z', @.s)", "!('" + t + "')", "@.v in ['" + t + "', 1]"}
		if isID(t, false) {
			l = append(l, "@."+t+" == 1", "@.v == "+t, "@."+t+".length == 2")
		}
		if num(t) {
			l = append(l, "@.v == "+t, "@.v + "+t+" == 0", t+" / 7 == @.q", t+".0 / 7 == @.q", "@.v == "+t+".0", "@["+t+"] == 1", "@.v == -"+t, "contains([@.v], "+t+")", "contains(@.s, "+t+")", "["+t+", '"+t+"'][@.i] == @.v", "["+t+".0/2, "+t+"/2, '"+t+"'][@.i] == @.q")
		}
		return l
	}
	all := append(words(t), words(u)...)
	var c []V
	for _, w := range []string{t, u} {
		vs := []V{w, "x" + w, w + "z", nil}
		if n, err := strconv.ParseInt(w, 10, 64); err == nil {
			vs = append(vs, float64(n), -float64(n))
		}
		for _, v := range vs {
			m := map[string]V{"v": v, "s": pick[V](r, w, "x"+w, "y"), "i": float64(r.n(3))}
			if n, err := strconv.ParseInt(w, 10, 64); err == nil {
				m["q"] = pick(r, float64(n/7), float64(n)/7, float64(n)/2, float64(n/2))
			}
			if r.p(60) {
				m[w] = pick[V](r, 1.0, "zz", 2.0)
			}
			c = append(c, m)
		}
	}
	d := s.newDoc(c)
	n := r.in(2, 6)
	l := make([]string, n)
	for i := range l {
		l[i] = all[r.n(len(all))]
	}
	key := func(t string) string {
		switch {
		case isID(t, true) && r.p(60):
			return t
		case num(t) && r.p(60):
			return t
		}
		return "'" + t + "'"
	}
	s.once("$[?("+strings.Join(l, pick(r, " || ", " && ", " && !", " == "))+")]", d)
	s.once("$[?("+strings.Join(l[:n/2+1], ") "+pick(r, "||", "==", "!=")+" (")+")]["+key(t)+","+key(u)+"]", d)
	s.once("$[?(["+strings.Join(l, ",")+"]["+strconv.Itoa(r.n(n))+"])]["+key(u)+"]", d)
	s.once("$.."+"["+key(t)+","+key(u)+pick(r, ",0", ",-1", ",v")+"]", d)
}
