package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Great values: a few cases that are far beyond the sizes of p_long.go, for what is cheap to judge.

var greatKinds = map[string][]func(*shard, *R, int){}

var greatSizes = []int{1100, 66000, 1500, 33000, 2050, 16500, 2600, 9000, 4100, 8200, 5000, 3000}

// great makes cases with great values: over all shards, every kind has every size.
func (s *shard) great() {
	r := newR(s.r.u64())
	i := 0
	for _, n := range greatSizes {
		for _, f := range greatKinds[s.prop] {
			q := newR(r.u64())
			if s.mine(i) {
				f(s, q, n)
			}
			i++
		}
		i++
	}
}

// plain makes an array of n dull elements with something else in a few places, which are returned.
func plain(r *R, n int) ([]V, []int) {
	a := make([]V, n)
	k := r.n(3)
	for i := range a {
		switch k {
		case 0:
			a[i] = float64(i)
		case 1:
			a[i] = 7.0
		default:
			a[i] = "s"
		}
	}
	at := []int{n - 1, n - 1 - r.n(20), r.in(n/2, n-1), r.n(n)}
	for _, i := range at {
		a[i] = pick[V](r, "x", -5.0, nil, true, []V{float64(i)}, map[string]V{"a": float64(i)})
	}
	return a, at
}

// wordy is a text of n characters of which few stand out.
func wordy(r *R, n int) string {
	b := []byte(strings.Repeat(pick(r, "a", "k", "ab", "x"), n)[:n])
	b[n-1-r.n(9)] = 'Z'
	b[r.n(n)] = 'q'
	return string(b)
}

func init() {
	big := func(max int, f func(*shard, *R, int)) func(*shard, *R, int) {
		return func(s *shard, r *R, n int) {
			for n > max {
				n = n/2 + 1
			}
			f(s, r, n)
		}
	}
	greatKinds["C01"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			a, at := plain(r, n)
			d := s.newDoc(a)
			for _, i := range at {
				s.once(fmt.Sprintf("$[%d]", i), d)
				s.once(fmt.Sprintf("$[%d]", i-n), d)
				s.once(fmt.Sprintf("$[0,%d,%d]", i, i-n), d)
				s.once(fmt.Sprintf("$.%d", i), d)
			}
			s.once(fmt.Sprintf("$[%d,%d]", n, -n-1), d)
		},
		big(9000, func(s *shard, r *R, n int) {
			d := s.newDoc(longObj(n))
			s.once(fmt.Sprintf("$.k%d", n-1), d)
			s.once(fmt.Sprintf("$['k%d','k%d',k0]", r.n(n), n), d)
		}),
		big(9000, func(s *shard, r *R, n int) {
			k := wordy(r, n)
			d := s.newDoc(map[string]V{k: 1.0, k[:n-1]: 2.0, k + "a": 3.0, k[1:]: 4.0})
			s.once("$."+k, d)
			s.once("$['"+k+"']", d)
			s.once("$['"+k[1:]+"',"+k+"a]", d)
		}),
	}
	greatKinds["C02"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			a, at := plain(r, n)
			d := s.newDoc(a)
			for _, i := range at[:3] {
				s.once(fmt.Sprintf("$[%d:%d]", i-2, i+3), d)
				s.once(fmt.Sprintf("$[%d:%d:-1]", i+2, i-3), d)
				s.once(fmt.Sprintf("$[::%d]", i), d)
				s.once(fmt.Sprintf("$[::%d]", -i), d)
				s.once(fmt.Sprintf("$[%d:%d]", i-n, i-n+3), d)
			}
			for _, k := range []int{n - 1, n, n + 1, n/2 + 1, n/3 + 1, n / 3, n/7 + 1, n/2 - 1} {
				s.once(fmt.Sprintf("$[::%d]", k), d)
				s.once(fmt.Sprintf("$[1::%d]", k), d)
				s.once(fmt.Sprintf("$[::%d]", -k), d)
				s.once(fmt.Sprintf("$[:-1:%d]", k), d)
				s.once(fmt.Sprintf("$[:1:%d]", -k), d)
			}
		},
	}
	few := func(s *shard, r *R, n int) V {
		a, _ := plain(r, n)
		return pick[V](r, a, map[string]V{"a": a}, []V{a, []V{1.0}}, []V{[]V{}, a})
	}
	greatKinds["C03"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			d := s.newDoc(few(s, r, n))
			s.once("$..a", d)
			s.once("$"+pick(r, "..[0]", "..[-1]", "..['a',0]", "..[("+strconv.Itoa(n-1)+")]", "..[0:1]"), d)
		},
		big(9000, func(s *shard, r *R, n int) { // as many containers
			a := make([]V, n)
			for i := range a {
				a[i] = pick[V](r, []V{}, map[string]V{})
			}
			a[n-1], a[r.n(n)] = map[string]V{"a": 1.0}, []V{5.0}
			d := s.newDoc(a)
			s.once("$..a", d)
			s.once("$..[0]", d)
		}),
	}
	greatKinds["C04"] = []func(*shard, *R, int){
		big(9000, func(s *shard, r *R, n int) {
			d := s.newDoc(few(s, r, n))
			s.once("$"+pick(r, "", "[*]", ".a", "..")+pick(r, "[?(@ == 'x' || @.a)]", "[?(@ == null)]", "[?(@ == -5)]", "[?(@[0] || @.a)]"), d)
		}),
	}
	greatKinds["C05"] = []func(*shard, *R, int){
		big(17000, func(s *shard, r *R, n int) {
			d := s.newDoc(few(s, r, n))
			s.once("$[*]"+pick(r, ".a", "[0]", "[*]", "['a',0]", "[0:1]", "[*].a"), d)
			s.once("$"+pick(r, ".*.*", "..*.a", "[*][*][0]", ".*.a", "[*]..a"), d)
		}),
	}
	greatKinds["C11"] = []func(*shard, *R, int){
		big(9000, func(s *shard, r *R, n int) {
			k := wordy(r, n)
			w := []rune(k)
			w[r.n(n)] = pick(r, 'é', '日', '😀')
			u := string(w)
			d := s.newDoc(map[string]V{k: 1.0, k[:n-1]: 2.0, u: 3.0, "v": []V{k, u, k[:n-1]}})
			s.once("$."+k, d)
			s.once("$."+u, d)
			s.once("$['"+u+"']", d)
			s.once("$['"+strings.Repeat("\\u0061", 5)+k+"']", d)
			s.once("$.v[?(@ == '"+u+"')]", d)
			s.once("$.v[?(@ == \""+k+"\")]", d)
		}),
	}
	greatKinds["C13"] = []func(*shard, *R, int){
		big(9000, func(s *shard, r *R, n int) {
			a, at := plain(r, n)
			i := at[r.n(4)]
			d := s.newDoc(map[string]V{"a": a, "c": []V{with(a, i, changed(r, a[i])), with(a, n-1, changed(r, a[n-1])), append([]V{}, a...), a[:n-1]}})
			s.once("$.c[?(@ "+pick(r, "==", "!=")+" $.a)]", d)
		}),
		func(s *shard, r *R, n int) {
			k := wordy(r, n)
			d := s.newDoc([]V{k, k[:n-1] + "#", k + "a", k[1:]})
			s.once("$[?(@ == $[0])]", d)
			if n <= 9000 {
				s.once("$[?(@ != '"+k+"')]", d)
			}
		},
	}
	greatKinds["C14"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			k := wordy(r, n)
			i := r.in(n/2, n-1)
			d := s.newDoc([]V{k, k[:i] + "#" + k[i+1:], k[:i] + "~" + k[i+1:], k + "a", k[:n-1], k[:i] + "é" + k[i+1:]})
			for _, op := range []string{"<", "<=", ">", ">="} {
				s.once("$[?(@ "+op+" $[0])]", d)
			}
		},
	}
	greatKinds["C17"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			a, at := plain(r, n)
			d := s.newDoc(map[string]V{"a": a, "c": []V{a[at[0]], a[at[1]], a[at[2]], "none", float64(n)}})
			for _, i := range at[:3] {
				s.once(fmt.Sprintf("$.c[?(@ == $.a[%d])]", i), d)
				s.once(fmt.Sprintf("$.c[?(@ == $.a[%d])]", i-n), d)
			}
			s.once("$.c[?(@ == $.a.length)]", d)
			s.once(fmt.Sprintf("$.c[?(!$.a[%d])]", n), d)
		},
		func(s *shard, r *R, n int) {
			k := wordy(r, n)
			d := s.newDoc(map[string]V{"a": map[string]V{k: 1.0, k[:n-1]: 2.0}, "s": k, "c": []V{1.0, 2.0, float64(n)}})
			if n <= 9000 {
				s.once("$.c[?(@ == $.a."+k+")]", d)
			}
			s.once("$.c[?(@ == $.a[$.s])]", d)
			s.once("$.c[?(@ == $.s.length)]", d)
		},
	}
	greatKinds["C18"] = []func(*shard, *R, int){
		big(9000, func(s *shard, r *R, n int) {
			a := make([]V, n)
			sum := 0.0
			for i := range a {
				f := float64(1 + r.n(3))
				if i == n-1 {
					f = 50
				}
				a[i] = f
				sum += f
			}
			a[r.n(n-1)] = -7.0
			sum = 0
			for _, f := range a {
				sum += f.(float64)
			}
			d := s.newDoc(map[string]V{"a": a, "c": []V{sum, sum / float64(n), 50.0, -7.0, float64(n), nil}})
			for _, e := range []string{"sum", "avg", "max", "min", "length"} {
				s.once("$.c[?(@ == "+e+"($.a))]", d)
			}
			b := append([]V{}, a...)
			b[n-1] = "x"
			s.once("$.c[?(@ == "+pick(r, "sum", "avg", "max", "min", "prod")+"($.a))]", s.newDoc(map[string]V{"a": b, "c": []V{nil, sum, 0.0}}))
		}),
	}
	greatKinds["C19"] = []func(*shard, *R, int){
		big(17000, func(s *shard, r *R, n int) {
			k := wordy(r, n)
			i := n - r.in(4, 12)
			d := s.newDoc(map[string]V{"a": k, "c": []V{k[i:], k[:i], k[1:], "Z", "Y", k[i-3 : i+3], float64(n), ""}})
			for _, e := range []string{"contains($.a, @)", "starts_with($.a, @)", "ends_with($.a, @)", "length($.a) == @", "$.a.length == @"} {
				s.once("$.c[?("+e+")]", d)
			}
		}),
		func(s *shard, r *R, n int) {
			a, at := plain(r, n)
			d := s.newDoc(map[string]V{"a": a, "c": []V{a[at[0]], a[at[1]], "none", float64(n), nil}})
			s.once("$.c[?(contains($.a, @))]", d)
			s.once("$.c[?(length($.a) == @)]", d)
		},
		big(1000, func(s *shard, r *R, n int) {
			w := make([]string, n)
			for i := range w {
				w[i] = pick(r, "", "a", "b")
			}
			w[n-1] = "z"
			d := s.newDoc(map[string]V{"t": strings.Join(w, ","), "c": []V{float64(n)}})
			s.once("$.c[?(@ == tokenize($.t, ',').length)]", d)
		}),
	}
	greatKinds["C20"] = []func(*shard, *R, int){
		big(4200, func(s *shard, r *R, n int) {
			k := wordy(r, n)
			d := s.newDoc([]V{k, k[:n/2]})
			s.once("$[?(@ =~ /"+pick(r, "Z", "Z.*$", "[YZ]", "Z|Y")+"/)]", d)
			s.once("$[?(@ =~ '"+pick(r, "^[a-z]*$", "^[^Z]*$", "q", k[n-9:])+"')]", d)
		}),
	}
	greatKinds["C21"] = []func(*shard, *R, int){
		big(17000, func(s *shard, r *R, n int) {
			a, at := plain(r, n)
			d := s.newDoc(map[string]V{"a": a, "c": []V{a[at[0]], a[at[1]], "none", a[at[3]], -1.0}})
			s.once("$.c[?(@ in $.a)]", d)
			s.once("$.c[?(@ nin $.a)]", d)
		}),
	}
	greatKinds["C23"] = []func(*shard, *R, int){
		func(s *shard, r *R, n int) {
			a, at := plain(r, n)
			d := s.newDoc(map[string]V{"a": a, "i": float64(at[1])})
			s.once("$.a[($.i)]", d)
			s.once(fmt.Sprintf("$.a[(%d)]", at[2]), d)
			s.once("$.a[($.a.length-1)]", d)
			s.once("$.a[(-1)]", d)
			s.once(fmt.Sprintf("$..[(%d)]", at[0]), d)
		},
		func(s *shard, r *R, n int) {
			k := wordy(r, n)
			d := s.newDoc(map[string]V{k: 1.0, k[:n-1]: 2.0, "k": k, "m": map[string]V{k: 3.0, k[1:]: 4.0}})
			s.once("$[($.k)]", d)
			if n <= 9000 {
				s.once("$.m[('"+k+"')]", d)
			}
			s.once("$..[($.k)]", d)
		},
	}
}
