package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Long values: what a property says of values of any length, where an implementation might treat the long ones apart.

var longKinds = map[string][]func(*shard, *R, int){}

// long makes some cases with long values.
func (s *shard) long() {
	ks := longKinds[s.prop]
	if len(ks) == 0 {
		return
	}
	r := newR(s.r.u64())
	sizes := []int{7, 8, 9, 10, 11, 13, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50, 63, 64, 65, 80, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 511, 513, 600, 1000, 1025}
	rounds := 6
	if !s.quick() {
		rounds = 40
	}
	i := 0
	for k := 0; k < rounds; k++ {
		for _, f := range ks {
			// every part of the range is visited by every kind, whatever the seed
			lo := (i*7 + s.shard*len(sizes)/s.shards + k) % len(sizes)
			f(s, newR(r.u64()), sizes[lo])
			i++
		}
	}
}

// small tells a size down: the cost of judging some cases grows faster than they do.
func atMost(n, max int) int {
	for n > max {
		n /= 2
	}
	return n
}

func longStr(r *R, n int) string {
	var sb strings.Builder
	alpha := pick(r, "a", "ab", "abc ", "é", "\u00e9a", "x", "01")
	for sb.Len() < n {
		c := r.n(len(alpha))
		for c > 0 && alpha[c]&0xC0 == 0x80 {
			c--
		}
		w := 1
		if alpha[c] >= 0xC0 {
			w = 2
		}
		sb.WriteString(alpha[c : c+w])
	}
	t := []rune(sb.String())
	if n > 3 && r.p(40) { // alike but for a place or two
		for m := r.in(1, 2); m > 0; m-- {
			t[place(r, len(t))] = pick(r, 'é', '😀', '日', 'Z', '0', ' ', '-', '~', '\u007f', '\ufffd')
		}
	}
	return string(t)
}

// places gives the places in 0..n-1 where things go wrong.
func place(r *R, n int) int {
	if n <= 1 {
		return 0
	}
	switch r.n(8) {
	case 0:
		return 0
	case 1:
		return n / 2
	case 2:
		if n > 8 {
			return 8
		}
	case 3:
		if n > 16 {
			return 16
		}
	case 4:
		return n - 2
	case 5:
		return r.n(n)
	}
	return n - 1
}

func lit(v V) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(v)
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64)
	case string:
		return "'" + v + "'"
	case []V:
		l := make([]string, len(v))
		for i := range v {
			l[i] = lit(v[i])
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	return "?"
}

func longArr(r *R, n int) []V {
	a := make([]V, n)
	k := r.n(8)
	for i := range a {
		switch k {
		case 5:
			a[i] = float64(n - i)
		case 6:
			a[i] = fmt.Sprintf("%05d", i)
		case 7:
			a[i] = float64(i/3) + 0.25
		case 0:
			a[i] = float64(i)
		case 1:
			a[i] = "s" + strconv.Itoa(i)
		case 2:
			a[i] = 1.0
		case 3:
			a[i] = []V{float64(i)}
		default:
			a[i] = pick[V](r, nil, true, 1.0, "x", []V{}, float64(i)+0.5)
		}
	}
	if n > 3 && r.p(50) { // regular but for a place or two
		for m := r.in(1, 2); m > 0; m-- {
			a[place(r, n)] = pick[V](r, 0.5, -1.0, float64(n)*2, "", "zz", "0", nil, []V{}, map[string]V{"a": 1.0}, false, a[r.n(n)], 2.5)
		}
	}
	return a
}

func changed(r *R, v V) V {
	switch x := v.(type) {
	case float64:
		return pick[V](r, x+1, -x-1, strconv.FormatFloat(x, 'f', -1, 64), nil, true)
	case string:
		return pick[V](r, x+"z", "", nil, 0.0)
	case nil:
		return pick[V](r, false, 0.0, "")
	case bool:
		return pick[V](r, !x, nil, 1.0)
	}
	return pick[V](r, 17.5, []V{v}, []V{17.5})
}

func without(a []V, i int) []V { return append(append([]V{}, a[:i]...), a[i+1:]...) }
func with(a []V, i int, v V) []V {
	b := append([]V{}, a...)
	b[i] = v
	return b
}
func swapped(a []V, i, j int) []V {
	b := append([]V{}, a...)
	b[i], b[j] = b[j], b[i]
	return b
}

func longObj(n int) map[string]V {
	m := map[string]V{}
	for i := 0; i < n; i++ {
		m["k"+strconv.Itoa(i)] = float64(i)
	}
	return m
}

func copyObj(m map[string]V) map[string]V {
	c := map[string]V{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func init() {
	longKinds["C01"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) { // long names, alike but for one place
			a := longStr(r, n)
			i := place(r, len(a))
			b := a[:i] + "#" + a[i:]
			c := a[:i] + "#" + a[i+1:]
			d := s.newDoc(map[string]V{a: 1.0, b: 2.0, a + "z": 3.0, c: 4.0, "q": 5.0})
			for _, k := range []string{a, b, c, a[:len(a)-1], a + "z", a + "zz"} {
				s.once("$['"+k+"']", d)
				if isID(k, true) {
					s.once("$."+k, d)
				}
			}
			s.once("$['"+c+"','"+a+"',q]", d)
		},
		func(s *shard, r *R, n int) { // many members
			n = atMost(n, 300)
			d := s.newDoc(longObj(n))
			i := place(r, n)
			s.once("$.k"+strconv.Itoa(i), d)
			s.once("$['k"+strconv.Itoa(n)+"']", d)
			s.once(fmt.Sprintf("$[k%d,k%d,'k%d',k%d]", i, n-1, n, i), d)
			s.once("$.*", d)
			s.once("$[*]", d)
		},
		func(s *shard, r *R, n int) { // many elements
			d := s.newDoc(longArr(r, n))
			i := place(r, n)
			s.once(fmt.Sprintf("$[%d]", i), d)
			s.once(fmt.Sprintf("$[%d]", -1-i), d)
			s.once(fmt.Sprintf("$.%d", i), d)
			s.once(fmt.Sprintf("$[%d,%d,%d,%d]", n-1, i, n, -n), d)
			s.once(fmt.Sprintf("$[%d]", -n-1), d)
			s.once("$.*", d)
		},
		func(s *shard, r *R, n int) { // many steps
			n = atMost(n, 130)
			var v V = []V{"end", "x"}
			p := ""
			for i := 0; i < n; i++ {
				v = map[string]V{"a": v, "b": float64(i)}
				p += pick(r, ".a", "['a']", "[a]")
			}
			s.once("$"+p+pick(r, "[0]", ".*", "[1,0]", ".a"), s.newDoc(v))
		},
	}
	longKinds["C02"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			d := s.newDoc(longArr(r, n))
			i, j := place(r, n), place(r, n)
			step := pick(r, 1, 2, 3, 7, n/2, n-1, n, n+1)
			if step == 0 {
				step = 1
			}
			f := func(p string, x ...any) { s.once(fmt.Sprintf(p, x...), d) }
			f("$[%d:%d]", i, j)
			f("$[%d:%d:%d]", i, j, step)
			f("$[%d:%d:%d]", i, j, -step)
			f("$[%d:]", -1-i)
			f("$[:%d]", -1-i)
			f("$[::%d]", step)
			f("$[::%d]", -step)
			f("$[%d::%d]", i, -step)
			f("$[:%d:%d]", i, -step)
			f("$[%d:%d]", i, n+5)
			f("$[0,%d:%d,-1]", i, i+2)
		},
	}
	longKinds["C03"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) { // a chain
			n = atMost(n, 150)
			var v V = map[string]V{"a": "leaf"}
			for i := 0; i < n; i++ {
				if r.p(50) {
					v = []V{v}
				} else {
					v = map[string]V{pick(r, "a", "b"): v}
				}
			}
			d := s.newDoc(v)
			s.once("$"+pick(r, "..a", "..[0]", "..b", "..a.a", "..a[0]", "..['a',0]"), d)
		},
		func(s *shard, r *R, n int) { // many siblings, the last with children of its own
			n = atMost(n, 300)
			a := make([]V, n)
			for i := range a {
				a[i] = map[string]V{"a": float64(i)}
			}
			i := place(r, n)
			a[i] = map[string]V{"b": []V{map[string]V{"a": "in"}}, "a": []V{map[string]V{"a": "in2"}}}
			d := s.newDoc(a)
			s.once("$..a", d)
			s.once("$..b..a", d)
			s.once(fmt.Sprintf("$..[%d]", i), d)
			s.once("$..['b','a']", d)
		},
	}
	longKinds["C03"] = append(longKinds["C03"], sparsely, sparsely)
	longKinds["C05"] = []func(*shard, *R, int){sparsely, sparsely, sparsely}
	longKinds["C04"] = []func(*shard, *R, int){sparsely, sparsely,
		func(s *shard, r *R, n int) {
			n = atMost(n, 300)
			a := make([]V, n)
			for i := range a {
				a[i] = map[string]V{"v": float64(i)}
				if r.p(10) {
					a[i] = pick[V](r, nil, "x", map[string]V{}, map[string]V{"v": nil}, float64(i))
				}
			}
			i := place(r, n)
			d := s.newDoc(a)
			s.once(fmt.Sprintf("$[?(@.v == %d)]", i), d)
			s.once(fmt.Sprintf("$[?(@.v >= %d)].v", i), d)
			s.once(fmt.Sprintf("$[?(@.v %% 2 == %d)].v", r.n(2)), d)
			s.once("$[?(!@.v)]", d)
			s.once(fmt.Sprintf("$[?(@.v == $[%d].v)]", i), d)
		},
	}
	longKinds["C10"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) { // chains of operators of different strengths
			n = atMost(n, 300)
			doc := []V{0.0, 1.0, true, false, 2.0, -1.0, 3.0, "none"}
			var sb strings.Builder
			sb.WriteString("1")
			for i := 0; i < n; i++ {
				sb.WriteString(pick(r, "+", "-", "-", "+", "*", "*") + strconv.Itoa(1+r.n(2)))
				if i%7 == 6 {
					sb.WriteString("%" + strconv.Itoa(5+r.n(3)))
				}
				if i%11 == 10 {
					sb.WriteString(pick(r, "-", "+") + "(" + strconv.Itoa(r.n(9)) + "-" + strconv.Itoa(r.n(9)) + ")")
				}
			}
			d := s.newDoc(append(hund(3), doc...))
			e := sb.String()
			s.once("$[?(@ == ("+e+") % 4)]", d)
			s.once("$[?(("+e+") % 97 < 40 == true)]", d)
		},
		func(s *shard, r *R, n int) { // chains of connectives
			n = atMost(n, 300)
			var sb strings.Builder
			for i := 0; i < n; i++ {
				sb.WriteString(pick(r, "@ == 101", "@ < 101", "true", "false", "@", "!@", "1 + 1 == 2", "2 < 1", "@ != 100") + pick(r, " && ", " && ", " || ", " == ", " != "))
			}
			s.once("$[?("+sb.String()+"true)]", s.newDoc(hund(3)))
			s.once("$[?("+sb.String()+"false)]", s.newDoc(append(hund(2), 0.0, true)))
		},
		func(s *shard, r *R, n int) { // brackets to the right and to the left
			n = atMost(n, 200)
			e, f := "1", "1"
			for i := 0; i < n; i++ {
				op := pick(r, "-", "-", "+", "*")
				k := strconv.Itoa(1 + r.n(3))
				e = k + op + "(" + e + ")%7"
				f = "(" + f + ")" + op + k + "%5"
				if len(f) > 8 && i%9 == 0 {
					f = "-(" + f + ")"
				}
				if i%8 == 7 {
					e, f = "("+e+")%11", "("+f+")%11"
				}
			}
			d := s.newDoc([]V{0.0, 1.0, 2.0, 3.0, -1.0, -2.0, -3.0})
			s.once("$[?(@ == ("+e+") % 4)]", d)
			s.once("$[?(@ == ("+f+") % 4)]", d)
		},
		func(s *shard, r *R, n int) { // signs and denials in a row
			n = atMost(n, 300)
			var sb strings.Builder
			for i := 0; i < n; i++ {
				sb.WriteString(pick(r, "-", "-", "-", "!", "- ", "!!"))
			}
			d := s.newDoc([]V{0.0, 1.0, -1.0, true, false, 2.0, -2.0})
			s.once("$[?(@ == "+sb.String()+"2)]", d)
			s.once("$[?(@ == "+strings.Repeat("-", n)+"2)]", d)
			s.once("$[?(@ == 1"+strings.Repeat("- ", n)+"1)]", d)
		},
	}
	longKinds["C11"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			esc := pick(r, `\n`, `\\`, `\'`, `\"`, `\/`, `\u0041`, `\u00e9`, `\ud83d\ude00`, `\ud83d`, "é", "😀", `\t`, `\b`, "\x01", "\x7f", "\xff", "]", ")", ",", "$", " ")
			dec := map[string]string{`\n`: "\n", `\\`: "\\", `\'`: "'", `\"`: "\"", `\/`: "/", `\u0041`: "A", `\u00e9`: "é", `\ud83d\ude00`: "😀", `\ud83d`: "\ufffd", `\t`: "\t", `\b`: "\b"}
			out, ok := dec[esc]
			if !ok {
				out = esc
			}
			body := strings.Repeat(pick(r, "a", "bc", "x y"), n)[:n]
			i := place(r, n)
			j := n - n/3
			if j < i {
				j = i
			}
			in, want := body[:i]+esc+body[i:j]+esc+body[j:], body[:i]+out+body[i:j]+out+body[j:]
			if strings.Contains(want, "\xff") {
				want = strings.ReplaceAll(want, "\xff", "\ufffd")
			}
			d := s.newDoc(map[string]V{want: 1.0, body: 2.0, want[1:]: 3.0, in: 4.0, body[:i] + out + body[i:]: 5.0})
			q := pick(r, "'", "\"")
			s.once("$["+q+in+q+"]", d)
			s.once("$["+q+in+esc+q+"]", d)
			s.once("$["+q+body+q+"]", d)
			c := s.newDoc([]V{want, body, in, want + "z"})
			s.once("$[?(@ == "+q+in+q+")]", c)
			s.once("$[?(@ in ["+q+"x"+q+","+q+in+q+"])]", c)
			if r.p(30) {
				s.once("$["+q+in+"]", d)
			}
		},
		func(s *shard, r *R, n int) { // nothing but escapes
			n = atMost(n, 300)
			e := pick(r, `\u0041`, `\ud83d\ude00`, `\n`, `\\`, `\"`, `\'`, `\ud83d`, `\ude00`, `\u00e9`)
			dec := map[string]string{`\n`: "\n", `\\`: "\\", `\'`: "'", `\"`: "\"", `\u0041`: "A", `\u00e9`: "é", `\ud83d\ude00`: "😀", `\ud83d`: "\ufffd", `\ude00`: "\ufffd"}
			w := strings.Repeat(dec[e], n)
			d := s.newDoc(map[string]V{w: 1.0, w + dec[e]: 2.0, w[len(dec[e]):]: 3.0})
			s.once("$['"+strings.Repeat(e, n)+"']", d)
			s.once("$[\""+strings.Repeat(e, n)+e+"\"]", d)
		},
		func(s *shard, r *R, n int) { // bare words
			w := strings.Repeat(pick(r, "a", "ab", "a_", "é", "a1"), n)
			d := s.newDoc(map[string]V{w: 1.0, w + "a": 2.0, w + "-b": 3.0})
			s.once("$."+w, d)
			s.once("$."+w+"-b", d)
			s.once("$["+w+"a]", d)
			s.once("$[?(@ == 1 && $."+w+")]", d)
		},
	}
	longKinds["C12"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			n = atMost(n, 400)
			z := strings.Repeat("0", n)
			dig := longDigits(r, n)
			k := strconv.Itoa(r.n(1000))
			short := dig
			if len(short) > 30 {
				short = short[:30]
			}
			exp := strconv.Itoa(n - 1)
			for _, t := range []string{
				z + "5.25", z + "5", "5." + z, "5.25" + z, "0." + z + "5", dig + ".0", dig + ".5", dig,
				"1." + z + "1", "0." + dig, short + ".0e-" + exp, "0." + z + "1e" + strconv.Itoa(n+1),
				"1.0e" + z + "2", "1.0e-" + z + "2", "1.0e+" + z + "3", "9007199254740992." + z, "9007199254740992." + z + "1", "9007199254740993." + z,
				"9007199254740993." + z + "1", "4503599627370497.5" + z, "4503599627370497.5" + z + "1", "4503599627370496.5" + z, "0." + z + dig, k + z + ".0e-" + strconv.Itoa(n),
				"-" + z + k, k + "." + z + k, "1" + z + ".0e-" + strconv.Itoa(n), "-" + dig + ".5e-" + exp,
			} {
				if r.p(30) {
					s.once("$[(["+t+"][0])]", s.newDoc(hund(8)))
				}
				x, err := strconv.ParseFloat(t, 64)
				c := []V{0.0, 1.0, 5.0, 5.25, 100.0, "none"}
				if err == nil {
					c = append(c, x)
				}
				if r.p(70) {
					s.once("$[?(@ == "+t+")]", s.newDoc(c))
				} else if r.p(50) {
					s.once("$[?(@ < "+t+")]", s.newDoc(c))
				} else {
					s.once("$[?("+t+" <= @)]", s.newDoc(c))
				}
			}
			d := s.newDoc(hund(8))
			s.once("$["+z+"3]", d)
			s.once("$[-"+z+"3]", d)
			s.once("$["+z+"1:"+z+"6:"+z+"2]", d)
			s.once("$["+dig+"]", d)
			s.once("$."+z+"3", d)
		},
	}
	longKinds["C13"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) { // arrays
			a := longArr(r, n)
			i, j := place(r, n), place(r, n)
			c := []V{append([]V{}, a...), with(a, i, changed(r, a[i])), with(a, j, changed(r, a[j])), without(a, i), append(append([]V{}, a...), nil), swapped(a, i, j), a[:n-1], V(float64(n)), "x"}
			d := s.newDoc(map[string]V{"a": a, "c": c})
			s.once("$.c[?(@ "+pick(r, "==", "!=")+" $.a)]", d)
			s.once("$.c[?($.a "+pick(r, "==", "!=")+" @)]", d)
			s.once("$.c[?(@ "+pick(r, "in", "nin")+" [0, $.a])]", d)
			if n <= 300 {
				s.once("$[?(@ == "+lit(V(a))+")]", s.newDoc(c))
			}
		},
		func(s *shard, r *R, n int) { // objects
			n = atMost(n, 200)
			m := longObj(n)
			k := "k" + strconv.Itoa(place(r, n))
			vs := []V{copyObj(m)}
			x := copyObj(m)
			x[k] = changed(r, x[k])
			y := copyObj(m)
			delete(y, k)
			z := copyObj(y)
			z["other"] = m[k]
			u := copyObj(m)
			u["other"] = nil
			w := copyObj(y)
			w["other"] = nil
			q := copyObj(m)
			q[k] = nil
			vs = append(vs, x, y, z, u, w, q)
			d := s.newDoc(map[string]V{"a": m, "c": vs, "y": q})
			s.once("$.c[?(@ == $.a)]", d)
			s.once("$.c[?($.a != @)]", d)
			s.once("$.c[?(@ == $.y)]", d)
		},
		func(s *shard, r *R, n int) { // strings
			a := longStr(r, n)
			i := place(r, len(a))
			c := []V{a, a[:i] + "#" + a[i+1:], a[:len(a)-1], a + "a", a[:i] + a[i+1:], "", strings.ToUpper(a)}
			d := s.newDoc(map[string]V{"a": a, "c": c})
			s.once("$.c[?(@ == $.a)]", d)
			s.once("$.c[?(@ != '"+a+"')]", d)
			s.once("$.c[?(@ in ['x',$.a])]", d)
		},
		func(s *shard, r *R, n int) { // in long lists
			n = atMost(n, 600)
			a := longArr(r, n)
			i := place(r, n)
			c := []V{a[i], a[n-1], a[0], changed(r, a[i]), nil, "zz"}
			d := s.newDoc(map[string]V{"a": a, "c": c})
			s.once("$.c[?(@ in $.a)]", d)
			s.once("$.c[?(@ nin $.a)]", d)
			s.once("$.c[?(contains($.a, @))]", d)
			if n <= 300 {
				s.once("$.c[?(@ "+pick(r, "in", "nin")+" "+lit(V(a))+")]", d)
			}
		},
		func(s *shard, r *R, n int) { // deep
			n = atMost(n, 90)
			k := r.n(6) // of one kind or mixed
			deep := func(v V) V {
				r := newR(uint64(n))
				for i := 0; i < n; i++ {
					m := r.n(3)
					if k < 3 {
						m = k
					}
					switch m {
					case 0:
						v = []V{v}
					case 1:
						v = map[string]V{"a": v}
					default:
						v = []V{float64(i), v}
					}
				}
				return v
			}
			d := s.newDoc(map[string]V{"a": deep(1.0), "c": []V{deep(1.0), deep(2.0), deep(nil), deep([]V{}), deep(deep(1.0))}})
			s.once("$.c[?(@ == $.a)]", d)
			s.once("$.c[?(@ != $.a)]", d)
			s.once("$.c[?(@ in [$.a])]", d)
		},
	}
	longKinds["C14"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			a := longStr(r, n)
			i := place(r, len(a))
			c := []V{a, a[:i] + "~" + a[i+1:], a[:i] + "!" + a[i+1:], a[:len(a)-1], a + "!", a + "\x00", a[:i], a[:i] + "\u00ff", a[:i] + "é" + a[i:], ""}
			d := s.newDoc(map[string]V{"a": a, "c": c})
			for _, op := range []string{"<", "<=", ">", ">="} {
				s.once("$.c[?(@ "+op+" $.a)]", d)
				s.once("$.c[?('"+a+"' "+op+" @)]", d)
			}
		},
		func(s *shard, r *R, n int) { // numbers in texts
			n = atMost(n, 300)
			t := strings.Repeat("0", n)
			c := []V{t + "5", "5", "5." + t, 5.0, "4." + strings.Repeat("9", n), 4.999, t, "x" + t, "-" + t + "1"}
			d := s.newDoc(c)
			for _, op := range []string{"<", "<=", ">", ">="} {
				s.once("$[?(@ "+op+" 5)]", d)
				s.once("$[?(@ "+op+" '"+t+"5')]", d)
			}
		},
	}
	longKinds["C15"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			n = atMost(n, 400)
			d := s.newDoc(map[string]V{"C": []V{longArr(r, n), longObj(n), longStr(r, n), strings.Repeat("0", n), strings.Repeat(" ", n), []V{}, "", nil, 0.0}})
			for _, e := range []string{"@", "!@", "!!@", "@ && true", "false || @", "@ == true", "(@ || 0) == @", "@ && 1 == 1"} {
				s.once("$.C[?("+e+")]", d)
			}
			s.once("$.C[?("+strings.Repeat("!", n)+"@)]", d)
			s.once("$.C[?("+strings.Repeat("@ && ", n)+"true)]", d)
			s.once("$.C[?("+strings.Repeat("false || ", n)+"@)]", d)
			s.once("$.C[?("+strings.Repeat("nosuch || ", n)+"@)]", d)
			s.once("$.C[?("+strings.Repeat("nosuch.x || ", n/2)+"@ && "+strings.Repeat("$.C[0] && ", n/2)+"1)]", d)
		},
	}
	longKinds["C16"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			n = atMost(n, 200)
			var sb strings.Builder
			sb.WriteString(pick(r, "1", "1.5", "$[0]", "'2'"))
			fl := r.p(50)
			for i := 0; i < n; i++ {
				k := strconv.Itoa(r.n(20))
				if fl {
					k += pick(r, ".5", ".25", ".0")
				}
				sb.WriteString(pick(r, "+", "-", "+", "-", "-") + k)
			}
			e := sb.String()
			d := s.newDoc([]V{3.0, "none", 0.0, 1.0, 2.0, -1.0, 0.5, -0.5, 1.5})
			s.once("$[?(@ == ("+e+")%4)]", d)
			s.once("$[?(@ == ("+e+") - ("+e+"))]", d)
			s.once("$[?(0 < "+e+")]", d)
			s.once("$[?(@ == 1.0"+strings.Repeat("/2", atMost(n, 80))+strings.Repeat("*2", atMost(n, 80))+")]", d)
			s.once("$[?(@ == 1"+strings.Repeat("*3", n)+"%4)]", d)
			s.once("$[?(@ == 0"+strings.Repeat("+0.1", n)+")]", s.newDoc([]V{tenths(n), float64(n) / 10, float64(n) * 0.1}))
		},
		func(s *shard, r *R, n int) { // long digit strings as operands
			n = atMost(n, 300)
			z := strings.Repeat("0", n)
			d := s.newDoc(map[string]V{"s": z + "7", "t": "7." + z, "b": "1" + z, "c": []V{8.0, 7.0, 49.0, "none", 3.5}})
			for _, e := range []string{"$.s + 1", "$.t + 1", "$.s * $.t", "$.t / 2", "$.b - $.b + 7", "'" + z + "7' % 8", "-$.s + 14"} {
				s.once("$.c[?(@ == "+e+")]", d)
			}
		},
	}
	longKinds["C17"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			a := longArr(r, n)
			i := place(r, n)
			m := longObj(atMost(n, 200))
			str := longStr(r, n)
			d := s.newDoc(map[string]V{"a": a, "m": m, "s": str, "c": []V{a[i], a[n-1], a[0], float64(n), float64(len(m)), float64(len(str)), nil, float64(i), float64(len([]rune(str)))}})
			for _, e := range []string{
				fmt.Sprintf("$.a[%d]", i), fmt.Sprintf("$.a[%d]", -1-i), fmt.Sprintf("$.a[%d]", n), fmt.Sprintf("$.a[%d]", -n), fmt.Sprintf("$.a[%d]", -n-1), "$.a.length", "$.m.length", "$.s.length", "$.a[$.a.length-1]",
				fmt.Sprintf("$.m.k%d", i), fmt.Sprintf("$.m['k%d']", len(m)-1), fmt.Sprintf("$.a[%d.9]", i), fmt.Sprintf("$.a['%d']", i), fmt.Sprintf("$.a[%d+0]", i), fmt.Sprintf("$.m['k'+%d]", i), "$.a[length($.a)-1]",
			} {
				s.once("$.c[?(@ == "+e+")]", d)
			}
		},
		func(s *shard, r *R, n int) { // a long chain of accesses
			n = atMost(n, 150)
			var v V = []V{3.0, 4.0}
			acc := ""
			for i := 0; i < n; i++ {
				if r.p(50) {
					v, acc = []V{0.0, v}, pick(r, "[1]", "[-1]", "[2-1]")+acc
				} else {
					v, acc = map[string]V{"k": v, "l": 1.0}, pick(r, ".k", "['k']", "[\"k\"]")+acc
				}
			}
			d := s.newDoc(v)
			s.once("$[?($"+acc+"[1] == 4)]", d)
			s.once("$[?($"+acc+".length == 2)]", d)
			s.once("$[?($"+acc+"[2] == null || $"+acc+"[-2] == 3)]", d)
		},
	}
	longKinds["C18"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			a := make([]V, n)
			t := make([]string, n)
			k := r.n(4)
			for i := range a {
				switch k {
				case 0:
					a[i] = float64(r.n(1000) - 500)
				case 1:
					a[i] = float64(r.n(10000)-5000) / 8
				case 2:
					a[i] = float64(r.n(1000000)) * 0.1
				default:
					a[i] = pick(r, 1.0, -1.0, 1e16, -1e16, 0.1)
				}
				t[i] = lit(a[i])
				if r.p(2) && k < 2 {
					a[i] = "'" + t[i]
				}
			}
			i := place(r, n)
			a[i] = pick(r, 100000.0, -100000.0, 0.5, 1.0)
			t[i] = lit(a[i])
			sum := 0.0
			prod := 1.0
			for i := range a {
				if f, ok := a[i].(float64); ok {
					sum += f
					prod *= f
				}
			}
			c := []V{100000.0, -100000.0, sum, sum / float64(n), sum / float64(n-1), prod, 0.0, float64(n), nil, 1.0, -1.0}
			d := s.newDoc(map[string]V{"a": a, "c": c})
			for _, e := range []string{"sum($.a)", "avg($.a)", "max($.a)", "min($.a)", "length($.a)"} {
				s.once("$.c[?(@ == "+e+")]", d)
			}
			if n <= 130 {
				s.once("$.c[?(@ == prod($.a))]", d)
			}
			if n <= 300 {
				l := strings.Join(t, ",")
				f := pick(r, "max", "min")
				s.once("$.c[?(@ == "+f+"("+l+"))]", d)
				s.once("$.c[?(@ == "+f+"(["+l+"]))]", d)
				s.once("$.c[?(@ == "+pick(r, "sum", "avg", "length")+"(["+l+"]))]", d)
			}
		},
		func(s *shard, r *R, n int) {
			n = atMost(n, 128)
			// products of ones, twos and halves, and whole numbers
			a := make([]V, n)
			p := 1.0
			for i := range a {
				f := pick(r, 1.0, 2.0, 0.5, -1.0, 1.0, 1.0)
				a[i], p = f, p*f
			}
			d := s.newDoc(map[string]V{"a": a, "c": []V{p, -p, 2 * p, p / 2, 0.0, 1.0}})
			s.once("$.c[?(@ == prod($.a))]", d)
			s.once("$.c[?(@ == prod("+lit(V(a))+"))]", d)
			s.once("$.c[?(@ == floor(prod($.a)) || @ == ceil(prod($.a)))]", d)
		},
	}
	longKinds["C19"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			a := longStr(r, n)
			i := place(r, len(a))
			mid := a[i:]
			if len(mid) > 20 && r.p(60) {
				mid = mid[:1+r.n(20)]
			}
			d := s.newDoc(map[string]V{"a": a, "c": []V{mid, mid + "#", a, a + "a", a[1:], a[:len(a)-1], "", a[:i], "#", a[len(a)-1:]}})
			for _, e := range []string{"contains($.a, @)", "starts_with($.a, @)", "ends_with($.a, @)", "contains(@, $.a)", "starts_with('" + a + "', @)", "ends_with(@, '" + mid + "')", "length(@) == " + strconv.Itoa(len(mid)), "length(@) == length($.a)"} {
				s.once("$.c[?("+e+")]", d)
			}
		},
		func(s *shard, r *R, n int) { // pieces
			n = atMost(n, 400)
			sep := pick(r, ",", ", ", "--", "ab", "aa", " ", "é", "")
			parts := make([]string, n)
			for i := range parts {
				parts[i] = pick(r, "", "x", "yy", "a", strconv.Itoa(i))
			}
			parts[n-1] = pick(r, "", "z", "last")
			t := strings.Join(parts, sep)
			w := strings.Split(t, sep)
			d := s.newDoc(map[string]V{"t": t, "c": []V{float64(n), float64(n - 1), float64(n + 1), w[len(w)-1], parts[0], parts[n/2], "", float64(len(w))}})
			q := "tokenize($.t,'" + sep + "')"
			s.once("$.c[?(@ == "+q+".length)]", d)
			s.once("$.c[?(@ == "+q+"[-1])]", d)
			s.once(fmt.Sprintf("$.c[?(@ == %s[%d])]", q, n/2), d)
			s.once("$.c[?(@ in "+q+")]", d)
		},
		func(s *shard, r *R, n int) { // members
			n = atMost(n, 300)
			m := longObj(n)
			d := s.newDoc(map[string]V{"m": m, "c": []V{"k" + strconv.Itoa(n-1), "k" + strconv.Itoa(n), "k0", "k" + strconv.Itoa(place(r, n)), "k", float64(n), float64(n + 1)}})
			s.once("$.c[?(@ in keys($.m))]", d)
			s.once("$.c[?(@ == keys($.m).length)]", d)
			s.once("$.c[?(@ == length(keys($.m)))]", d)
			s.once("$.c[?(contains(keys($.m), @))]", d)
		},
		func(s *shard, r *R, n int) { // arrays and numbers in texts
			a := longArr(r, n)
			i := place(r, n)
			z := strings.Repeat("0", atMost(n, 300))
			d := s.newDoc(map[string]V{"a": a, "z": z + "7", "y": "7." + z, "x": z + "7x", "c": []V{a[i], a[n-1], changed(r, a[i]), 7.0, nil, float64(n), float64(n - 1)}})
			for _, e := range []string{"contains($.a, @)", "@ == length($.a)", "@ == to_number($.z)", "@ == to_number($.y)", "@ == to_number($.x)"} {
				s.once("$.c[?("+e+")]", d)
			}
		},
	}
	longKinds["C20"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) { // long subjects
			n = atMost(n, 130)
			a := strings.Repeat(pick(r, "a", "ab", "aab"), n)[:n]
			i := place(r, n)
			d := s.newDoc([]V{a, a[:i] + "#" + a[i:], "#" + a, a + "#", a[:i] + "\n" + a[i:], "", "#"})
			for _, p := range []string{"^[ab]*$", "#", "#$", "^#", "^[ab]*#[ab]*$", "^.*$", "b#", "(a|b)+#", fmt.Sprintf("^.{%d}$", n), "a{3}", "^a"} {
				if r.p(60) {
					s.once("$[?(@ =~ /"+p+"/)]", d)
				}
			}
		},
		func(s *shard, r *R, n int) { // long patterns
			n = atMost(n, 130)
			a := strings.Repeat(pick(r, "a", "ab", "abc"), n)[:n]
			i := place(r, n)
			d := s.newDoc([]V{a, a + "z", "z" + a, a[:i] + "z" + a[i+1:], a[1:], "", "z"})
			alts := make([]string, n)
			for j := range alts {
				alts[j] = "w" + strconv.Itoa(j)
			}
			for _, p := range []string{a, "^" + a + "$", a[:i] + "." + a[i+1:], a[:i] + "[az]" + a[i+1:] + "$", strings.Join(alts, "|") + "|^z", "^(" + strings.Repeat("a?", atMost(n, 20)) + ")$"} {
				if r.p(50) {
					s.once("$[?(@ =~ /"+p+"/)]", d)
				} else {
					s.once("$[?(@ =~ '"+p+"')]", d)
				}
			}
		},
	}
	longKinds["C21"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			n = atMost(n, 600)
			a := longArr(r, n)
			i, j := place(r, n), place(r, n)
			c := []V{a[i], a[j], a[n-1], changed(r, a[i]), nil, []V{a[0]}, "z", "a", true}
			for m := 0; m < 8; m++ {
				c = append(c, a[place(r, n)], changed(r, a[place(r, n)]))
			}
			d := s.newDoc(map[string]V{"a": a, "s": longStr(r, n), "c": c})
			s.once("$.c[?(@ in $.a)]", d)
			s.once("$.c[?(@ nin $.a)]", d)
			s.once("$.c[?(@ in $.s)]", d)
			if n <= 300 {
				l := lit(V(a))
				s.once("$.c[?(@ in "+l+")]", d)
				s.once("$.c[?(@ nin "+l+")]", d)
				s.once("$.c[?(@ nin ["+l+"])]", d)
			}
			b := append([]V{}, a...)
			for k := range b {
				if k%3 == 0 {
					b[k] = "$.c[" + strconv.Itoa(r.n(5)) + "]"
				}
			}
			if n <= 200 {
				l := make([]string, n)
				for k := range l {
					l[k] = lit(a[k])
					if k%4 == 1 {
						l[k] = pick(r, "@", "$.nosuch", "1/0", "$.c[0]", "@.x", "'q'+''")
						if k > 5 {
							l[k] = pick(r, "$.nosuch", "$.c[0]", "1/0")
						}
					}
				}
				s.once("$.c[?(@ in ["+strings.Join(l, ",")+"])]", d)
			}
		},
	}
	longKinds["C21"] = append(longKinds["C21"], longKinds["C21"][0], longKinds["C21"][0])
	longKinds["C22"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) { // what cannot be found or done, among much that can
			n = atMost(n, 200)
			l := make([]string, n)
			for i := range l {
				l[i] = strconv.Itoa(i)
			}
			l[place(r, n)] = pick(r, "1/0", "$.nosuch", "'a'-1", "foo", "@.x.y", "abs([])")
			d := s.newDoc(map[string]V{"c": []V{0.0, 5.0, float64(n - 1), "z", nil}, "a": longArr(r, n)})
			e := strings.Join(l, ",")
			for _, t := range []string{"@ in [" + e + "]", "max(" + e + ") == @", "sum([" + e + "]) > 1", strings.Join(l, "+") + " || true", "[" + e + "].length == " + strconv.Itoa(n), "(" + strings.Join(l, "||") + ") == 1", "foo(" + e + ") || @", "abs(" + e + ") || @"} {
				s.once("$.c[?("+t+")]", d)
			}
		},
	}
	longKinds["C23"] = []func(*shard, *R, int){sparsely,
		func(s *shard, r *R, n int) {
			a := longArr(r, n)
			i := place(r, n)
			m := longObj(atMost(n, 200))
			d := s.newDoc(map[string]V{"a": a, "m": m, "i": float64(i), "k": "k" + strconv.Itoa(len(m)-1), "x": strings.Repeat("x", n), strings.Repeat("x", n): "found"})
			for _, p := range []string{"$.a[($.i)]", "$.a[(-1-$.i)]", "$.a[($.a.length-1)]", "$.a[(@.length-1)]", "$..a[(0)]", "$.m[($.k)]", "$.m[('k'+1)]", "$[($.x)]", "$.a[(" + strings.Repeat("1+", atMost(n, 200)) + "0)]", "$.a[(-$.a.length)]", "$.a[($.a.length)]", "$..[($.i)]", "$.a[($.i),0]", "$.m[($.k),k0]"} {
				s.once(p, d)
			}
			many := make([]V, atMost(n, 130))
			for j := range many {
				many[j] = hund(1 + j%5)
			}
			dm := s.newDoc(many)
			s.once("$..[(@.length-1)]", dm)
			s.once("$[*][(2)]", dm)
			s.once("$[*][(-2)]", dm)
		},
	}
}

// sparse is a container of n members of which all but a few are dull, and the places of those.
func sparse(r *R, n int) (V, []int) {
	kind := r.n(6)
	dull := func(i int) V {
		switch kind {
		case 0:
			return nil
		case 1:
			return float64(i)
		case 2:
			return "s"
		case 3:
			return []V{}
		case 4:
			return map[string]V{}
		}
		return pick[V](r, nil, false, 0.0, "", "x", 1.5)
	}
	a := make([]V, n)
	for i := range a {
		a[i] = dull(i)
	}
	var at []int
	for k := 1 + r.n(3); k > 0; k-- {
		i := place(r, n)
		at = append(at, i)
		a[i] = pick[V](r, map[string]V{"a": float64(i)}, []V{[]V{1.0}, "a"}, map[string]V{"a": []V{map[string]V{"a": 2.0}}, "b": nil}, []V{map[string]V{"a": nil}}, []V{0.0})
	}
	if r.p(30) {
		m := map[string]V{}
		for i, v := range a {
			m["k"+strconv.Itoa(i)] = v
		}
		return m, at
	}
	return a, at
}

func sparsely(s *shard, r *R, n int) {
	for k := 0; k < 4; k++ {
		sparseCase(s, r, atMost(n, 600)+r.n(3))
	}
}

func sparseCase(s *shard, r *R, n int) {
	v, at := sparse(r, n)
	if r.p(30) {
		v = pick[V](r, []V{v, 1.0}, map[string]V{"a": v}, []V{0.0, v, v})
	}
	d := s.newDoc(v)
	i := strconv.Itoa(at[0])
	for k := 0; k < 5; k++ {
		switch s.prop {
		case "C03":
			s.once("$"+pick(r, "..a", "..*", "..[0]", "..a..a", "..["+i+"]", "..[?(@.a)]", "..['a','b']", "..k"+i, "..[-1]", "..a[0]", "..[0:1]"), d)
		case "C04":
			s.once("$"+pick(r, "[?(@.a)]", "[?(@[0])]", "[?(@)]", "[?(!@)]", "..[?(@.a)]", "[?(@.length > 0)]", "[?(@.length == 0)]", "[?(@ == $["+i+"])]", "[?(@ == null)]", "[?(@ != 's')]", "..[?(@ == 1)]", "[?(@.a)].a", "[?(@ == "+i+")]"), d)
		case "C05":
			s.once("$"+pick(r, "[*].a", "..a[*]", ".*.*", "[*][0]", "[*]..a", "..*.a", "[?(@.a)].a", "[*][?(@)]", "..[0][0]", "["+i+","+i+"].a", "[*]['a','b']", "..a.length", "[*].length"), d)
		default:
			s.once("$"+pick(r, "..[(0)]", "..[('a')]", "[*][(0)]", "[*][('a')]", "[*][(@.length-1)]", "..[(@.length-1)]", "..["+i+"]", "..[(@.a)]", "[("+i+")]"), d)
		}
	}
}

func longDigits(r *R, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.n(10))
	}
	if b[0] == '0' {
		b[0] = '1'
	}
	return string(b)
}

func tenths(n int) float64 {
	f := 0.0
	for i := 0; i < n; i++ {
		f += 0.1
	}
	return f
}
