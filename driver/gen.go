package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---- pools ----

var ints = []int64{0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 63, 64, 100, 127, 128, 255, 256, 1000, 4095, 4096, 32767, 32768, 65535, 65536,
	1<<21 - 1, 1 << 21, 1<<22 - 2, 1<<22 - 1, 1 << 22, 1<<22 + 1, 1<<23 - 1, 1 << 23, 1<<23 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 1,
	1<<30 - 1, 1 << 30, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<40 + 3, 1<<47 + 1, 1<<52 + 1,
	1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<53 + 2, 1<<62 - 1, 1 << 62, 1<<62 + 1, math.MaxInt64 - 1024, math.MaxInt64 - 512, math.MaxInt64 - 511, math.MaxInt64 - 2, math.MaxInt64 - 1, math.MaxInt64,
	999999999, 1000000000, 123456789012345678, 1000000000000000000, 3037000499, 3037000500, 4294967296 * 3}

var floats = []float64{0, math.Copysign(0, -1), 0.5, 1.5, 2.5, 0.1, 0.2, 0.3, 0.25, 1e-6, 1e-7, 9.99e-7, 1e20, 1e21, 1e22, 123456789.125, 1e15 + 0.5,
	9007199254740991, 9007199254740992, 9007199254740994, 4503599627370497.5, 1e300, 1e308, math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1e-300,
	9223372036854775807, 9223372036854774784, 18446744073709551616, 4611686018427387904, 1e9, 1e10, 100, 10, 99.99, 3.14159, 1.0000000000000002, 0.9999999999999999}

var words = []string{"", "a", "b", "ab", "abc", "aa", "ba", "A", "B", "Abc", "0", "1", "2", "10", "-1", "01", "1.0", "1.5", "0.5", "1e3", "1E3", "+1", ".5", "5.", "-0", "00", "1e999", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "true", "false", "null", "undefined", "x", "xyz", "hello world", "héllo", "日本語", "日本", "😀", "a😀b", "a.b", "a b", "a/b", "a\\b", "a\"b", "a'b", "\n", "\t", "a\nb", "-", "--", "_", "length", "é", "e\u0301", "z", "~", "\u007f", "\u0080", "\ufffd", "\uffff", "\U00010000", "[object Object]", "1,2", "1 ", " 1", "0x10", "NaN", "Infinity", "inf", "1_000"}

var plainKeys = []string{"a", "b", "c", "d", "e"}
var oddKeys = []string{"", "0", "1", "2", "-1", "10", "a-b", "a b", "length", "in", "nin", "true", "null", "é", "日本", "😀", "a.b", "*", "$", "@", "'", "\"", "\\", "/", "a/b", "\n", "\u0001", "_x", "A", "9223372036854775807", "-9223372036854775808", "4194304", "x y\tz", "\u2028", "\ufeff", "\u007f", "a'b\"c", "[0]", "..", "key", "keys", "01", "1.5", "1e6", "100000000000000000000"}

func (r *R) int() int64 {
	switch r.n(6) {
	case 0, 1:
		return int64(r.in(-5, 9))
	case 2:
		v := ints[r.n(len(ints))]
		if r.p(40) {
			return -v
		}
		return v
	case 3:
		return int64(r.in(-300, 300))
	case 4:
		return int64(r.u64()) >> uint(r.n(64))
	default:
		// about a power of two
		return (int64(1) << uint(r.n(63))) + int64(r.in(-2, 2))
	}
}

func (r *R) float() float64 {
	var f float64
	switch r.n(8) {
	case 0, 1:
		f = float64(r.in(-5, 9))
	case 2:
		f = floats[r.n(len(floats))]
	case 3:
		f = float64(r.int())
	case 4:
		f = float64(r.in(-1000, 1000)) / float64(pick(r, 2, 3, 4, 7, 8, 10, 16, 100, 1000))
	case 5:
		f = math.Float64frombits(r.u64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1
		}
	case 6:
		f = math.Nextafter(float64(r.int()), float64(r.in(-1, 1))*1e300)
	default:
		f = math.Ldexp(float64(r.u64()>>11), r.in(-80, 20))
	}
	if r.p(20) {
		f = -f
	}
	return f
}

func (r *R) str() string {
	switch r.n(5) {
	case 0, 1:
		return words[r.n(len(words))]
	case 2:
		return strings.Repeat(pick(r, "a", "b", "ab", "xy", "é"), r.n(4))
	case 3:
		n := r.n(8)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteByte("abcAB01.-_ é"[r.n(11)])
		}
		return sb.String()
	default:
		n := r.n(5)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(r.rune())
		}
		return sb.String()
	}
}

func (r *R) rune() rune {
	switch r.n(8) {
	case 0, 1, 2:
		return rune(r.in(32, 126))
	case 3:
		return rune(r.n(32))
	case 4:
		return pick(r, rune(0x7f), 0x80, 0xa0, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x2028, 0x3000, 0xfeff)
	case 5:
		return rune(r.in(0x80, 0x7ff))
	case 6:
		return rune(r.in(0x800, 0xd7ff))
	default:
		return rune(r.in(0x10000, 0x10ffff))
	}
}

// ---- documents ----

type docOpt struct {
	depth    int
	width    int
	keys     []string // keys to draw from
	odd      int      // percent of odd keys
	distinct bool     // leaves all different
	arrays   int      // percent of containers that are arrays
	leaf     int      // percent of inner positions that are leaves
	small    bool     // leaves from a small set
}

type docGen struct {
	r *R
	o docOpt
	n int // next distinct leaf
}

func (g *docGen) leaf() V {
	r := g.r
	if g.o.distinct {
		g.n++
		if r.p(30) {
			return "s" + strconv.Itoa(g.n)
		}
		return float64(g.n)
	}
	if g.o.small {
		switch r.n(7) {
		case 0:
			return nil
		case 1:
			return r.p(50)
		case 2, 3:
			return float64(r.in(-1, 4))
		case 4:
			return pick(r, "", "a", "b", "1", "ab")
		case 5:
			return pick(r, 0.5, 1.5, -0.5)
		default:
			return float64(r.in(0, 2))
		}
	}
	switch r.n(8) {
	case 0:
		return nil
	case 1:
		return r.p(50)
	case 2, 3, 4:
		return r.float()
	default:
		return r.str()
	}
}

func (g *docGen) key() string {
	if g.r.p(g.o.odd) {
		return oddKeys[g.r.n(len(oddKeys))]
	}
	return g.o.keys[g.r.n(len(g.o.keys))]
}

func (g *docGen) val(depth int) V {
	r := g.r
	if depth <= 0 || r.p(g.o.leaf) {
		return g.leaf()
	}
	n := r.n(g.o.width + 1)
	if r.p(g.o.arrays) {
		a := make([]V, 0, n)
		for i := 0; i < n; i++ {
			a = append(a, g.val(depth-1))
		}
		return a
	}
	m := map[string]V{}
	for i := 0; i < n; i++ {
		m[g.key()] = g.val(depth - 1)
	}
	return m
}

func (r *R) doc(o docOpt) V {
	if o.keys == nil {
		o.keys = plainKeys
	}
	if o.width == 0 {
		o.width = 4
	}
	if o.arrays == 0 {
		o.arrays = 50
	}
	g := &docGen{r: r, o: o}
	return g.val(o.depth)
}

// anyDoc gives a document of varied shape, usually a container.
func (r *R) anyDoc() V {
	o := docOpt{depth: r.in(1, 4), width: r.in(1, 5), odd: pick(r, 0, 0, 20, 60), distinct: r.p(40), arrays: pick(r, 30, 50, 70), leaf: pick(r, 10, 30, 50), small: r.p(60)}
	for try := 0; ; try++ {
		d := r.doc(o)
		switch x := d.(type) {
		case []V:
			if len(x) > 0 || try > 2 {
				return d
			}
		case map[string]V:
			if len(x) > 0 || try > 2 {
				return d
			}
		default:
			if try > 2 || r.p(5) {
				return d
			}
		}
	}
}

func docSize(v V) int {
	n := 1
	switch v := v.(type) {
	case []V:
		for _, x := range v {
			n += docSize(x)
		}
	case map[string]V:
		for k, x := range v {
			n += docSize(x) + len(k)/8
		}
	case string:
		n += len(v) / 8
	}
	return n
}

// keysOf lists the names in v.
func keysOf(v V, acc map[string]bool) {
	switch v := v.(type) {
	case []V:
		for _, x := range v {
			keysOf(x, acc)
		}
	case map[string]V:
		for k, x := range v {
			acc[k] = true
			keysOf(x, acc)
		}
	}
}

// nodesOf lists the values in v.
func nodesOf(v V, acc []V) []V {
	acc = append(acc, v)
	switch v := v.(type) {
	case []V:
		for _, x := range v {
			acc = nodesOf(x, acc)
		}
	case map[string]V:
		for _, k := range sortedKeys(v) {
			acc = nodesOf(v[k], acc)
		}
	}
	return acc
}

// ---- text ----

func isIDByte(c byte, dash bool) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80 || c >= '0' && c <= '9' || dash && c == '-'
}
func isID(s string, dash bool) bool {
	if s == "" || s[0] >= '0' && s[0] <= '9' || s[0] == '-' {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !isIDByte(s[i], dash) {
			return false
		}
	}
	return true
}

// quote spells s as a string literal, in one of the possible ways.
func (r *R) quote(s string) string {
	q := pick(r, byte('\''), byte('"'))
	esc := pick(r, 0, 0, 0, 30, 100)
	var sb strings.Builder
	sb.WriteByte(q)
	for i := 0; i < len(s); {
		c, w := utf8.DecodeRuneInString(s[i:])
		bad := c == utf8.RuneError && w == 1
		short := strings.IndexRune("\b\f\n\r\t\\/", c)
		switch {
		case !bad && c != rune(q) && c >= 32 && c != '\\' && !r.p(esc):
			sb.WriteString(s[i : i+w])
		case bad:
			sb.WriteByte(s[i])
		case short >= 0 && r.p(60):
			sb.WriteByte('\\')
			sb.WriteByte(`bfnrt\/`[short])
		case c == rune(q) && r.p(60):
			sb.WriteByte('\\')
			sb.WriteByte(q)
		case c >= 0x10000:
			c -= 0x10000
			sb.WriteString(r.hex4(0xd800 + c>>10))
			sb.WriteString(r.hex4(0xdc00 + c&0x3ff))
		default:
			sb.WriteString(r.hex4(c))
		}
		i += w
	}
	sb.WriteByte(q)
	return sb.String()
}

func (r *R) hex4(c rune) string {
	s := fmt.Sprintf(pick(r, "%04x", "%04X"), c)
	return `\u` + s
}

// simple quoting, one way only
func quoteLit(s string) string {
	var sb strings.Builder
	sb.WriteByte('\'')
	for _, c := range []byte(s) {
		switch {
		case c == '\'' || c == '\\':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case c < 32:
			fmt.Fprintf(&sb, `\u%04x`, c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('\'')
	return sb.String()
}

// ws gives optional white space.
func (r *R) ws(pc int) string {
	if !r.p(pc) {
		return ""
	}
	return pick(r, " ", " ", "  ", "\t", "\n", "\r", "\f", "\v", " \t ")
}
