package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
)

// V is a JSON value as encoding/json gives it.
type V = interface{}

func encBytes(b []byte, s string) []byte {
	b = append(b, '[')
	for i := 0; i < len(s); i++ {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(s[i]), 10)
	}
	return append(b, ']')
}

func encNum(b []byte, kind string, g int, m uint64, e int) []byte {
	b = append(b, `{"t":"n","k":"`...)
	b = append(b, kind...)
	b = append(b, `","g":`...)
	b = strconv.AppendInt(b, int64(g), 10)
	b = append(b, `,"m":[`...)
	for i := 0; m != 0; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendUint(b, m&4095, 10)
		m >>= 12
	}
	b = append(b, `],"e":`...)
	b = strconv.AppendInt(b, int64(e), 10)
	return append(b, '}')
}

func encFloat(b []byte, f float64) []byte {
	g := 0
	if math.Signbit(f) {
		g = 1
	}
	switch {
	case math.IsNaN(f):
		return encNum(b, "nan", 0, 0, 0)
	case math.IsInf(f, 0):
		return encNum(b, "inf", g, 0, 0)
	case f == 0:
		return encNum(b, "f", g, 0, 0)
	}
	fr, ex := math.Frexp(math.Abs(f))
	m := uint64(fr * (1 << 53))
	ex -= 53
	z := bits.TrailingZeros64(m)
	return encNum(b, "f", g, m>>z, ex+z)
}

func encInt(b []byte, n int64) []byte {
	if n < 0 {
		return encNum(b, "i", 1, uint64(-n), 0)
	}
	return encNum(b, "i", 0, uint64(n), 0)
}

func sortedKeys(m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func depthOf(v V, max int) int {
	d := 0
	if max <= 0 {
		return 0
	}
	switch v := v.(type) {
	case []V:
		for _, x := range v {
			if n := depthOf(x, max-1); n > d {
				d = n
			}
		}
	case map[string]V:
		for _, x := range v {
			if n := depthOf(x, max-1); n > d {
				d = n
			}
		}
	default:
		return 0
	}
	return d + 1
}

// encTab appends a deeply nested value as a table of nodes, the parts before the whole.
func encTab(b []byte, v V) []byte {
	b = append(b, `{"t":"T","n":[`...)
	n := 0
	var walk func(v V) int
	walk = func(v V) int {
		var kids []int
		var keys []string
		switch v := v.(type) {
		case []V:
			for _, x := range v {
				kids = append(kids, walk(x))
			}
		case map[string]V:
			keys = sortedKeys(v)
			for _, k := range keys {
				kids = append(kids, walk(v[k]))
			}
		}
		if n > 0 {
			b = append(b, ',')
		}
		n++
		nums := []byte{}
		for i, k := range kids {
			if i > 0 {
				nums = append(nums, ',')
			}
			nums = strconv.AppendInt(nums, int64(k), 10)
		}
		switch v := v.(type) {
		case []V:
			b = append(append(append(b, `{"t":"a","a":[`...), nums...), `]}`...)
		case map[string]V:
			b = append(b, `{"t":"o","k":[`...)
			for i, k := range keys {
				if i > 0 {
					b = append(b, ',')
				}
				b = encBytes(b, k)
			}
			b = append(append(append(b, `],"v":[`...), nums...), `]}`...)
		default:
			b = encVal(b, v)
		}
		return n
	}
	walk(v)
	return append(b, `]}`...)
}

// encVal appends the specification's form of v.
func encVal(b []byte, v V) []byte {
	if depthOf(v, 101) > 100 {
		return encTab(b, v)
	}
	return encVal1(b, v)
}

func encVal1(b []byte, v V) []byte {
	switch v := v.(type) {
	case nil:
		return append(b, `{"t":"z"}`...)
	case bool:
		b = append(b, `{"t":"b","b":`...)
		b = strconv.AppendBool(b, v)
		return append(b, '}')
	case float64:
		return encFloat(b, v)
	case string:
		b = append(b, `{"t":"s","s":`...)
		b = encBytes(b, v)
		return append(b, '}')
	case []V:
		b = append(b, `{"t":"a","a":[`...)
		for i, x := range v {
			if i > 0 {
				b = append(b, ',')
			}
			b = encVal1(b, x)
		}
		return append(b, `]}`...)
	case map[string]V:
		ks := sortedKeys(v)
		b = append(b, `{"t":"o","k":[`...)
		for i, k := range ks {
			if i > 0 {
				b = append(b, ',')
			}
			b = encBytes(b, k)
		}
		b = append(b, `],"v":[`...)
		for i, k := range ks {
			if i > 0 {
				b = append(b, ',')
			}
			b = encVal1(b, v[k])
		}
		return append(b, `]}`...)
	default:
		// not a JSON value: nothing in the specification equals it
		b = append(b, `{"t":"foreign","go":`...)
		b = strconv.AppendQuote(b, fmt.Sprintf("%T", v))
		return append(b, '}')
	}
}
