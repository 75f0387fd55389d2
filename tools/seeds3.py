"""More planted bugs, a third wave; see seeds.py and mkseeds.py."""
from seeds import B, RUN, JSON, FNS, PROG, CODER, LEX, LEXE, LEXP, PE, PP, OPS, MAIN, LIB

B('c01-deep-union-end', 'C01', 'a union after .. with a negative index',
  'a negative index in a union after .. no longer counts from the end',
  [(RUN, '''					vm.out = valsByKey(vm.out, vm.dot, sel, true)
''', '''					vm.out = valsByKey(vm.out, vm.dot, sel, ord.op() != paths.OpNestUnion)
''')],
  'want(`$..[0,-1]`, `[1,2,3]`, `[1,3]`)')

B('c01-million', 'C01', 'a member whose name is a decimal number of a million or more, selected with an integer',
  'large integers used as member names are spelled with an exponent',
  [(RUN, '''	default:
		return fmt.Sprint(key)
	}
}
''', '''	default:
		return fmt.Sprint(float64(cvi(key)))
	}
}
''')],
  'want(`$[21000000]`, `{"21000000": 1}`, `[1]`); want(`$[2100]`, `{"2100": 1}`, `[1]`)')

B('c02-shared-bounds', 'C02', 'two slices in one path with the same start and end but different strides',
  'slices with equal start and end share one table entry, whatever their strides',
  [(CODER, '''	vals map[paths.Val]uint32 // map value to its index in prog.vals
''', '''	vals map[paths.Val]uint32 // map value to its index in prog.vals
	slices map[[2]paths.Val]uint32 // map slice bounds to the index in prog.vals
'''), (CODER, '''	b := &builder{vals: make(map[paths.Val]uint32), prog: prog}
''', '''	b := &builder{vals: make(map[paths.Val]uint32), slices: make(map[[2]paths.Val]uint32), prog: prog}
'''), (CODER, '''	i, ok := b.vals[val]
	if ok {
		return i, nil
	}
''', '''	i, ok := b.vals[val]
	if ok {
		return i, nil
	}
	if s, ok := val.(*paths.Slice); ok {
		// equal slices are different pointers
		if i, ok := b.slices[[2]paths.Val{s.Start, s.End}]; ok {
			return i, nil
		}
		b.slices[[2]paths.Val{s.Start, s.End}] = uint32(len(b.prog.vals))
	}
''')],
  'want(`$[0:4:2,0:4:3]`, `[0,1,2,3]`, `[0,2,0,3]`)')

B('c02-backward-short', 'C02', 'a negative stride on an array of one element',
  'an array of one element reversed is empty',
  [(RUN, '''		case stride < 0:
			for i := start; i > end; i += stride {
				vals = append(vals, src[i])
			}
		case stride == 0:
			// could''', '''		case stride < 0:
			if start == 0 && slice.Start == nil {
				// nothing before it
				return vals
			}
			for i := start; i > end; i += stride {
				vals = append(vals, src[i])
			}
		case stride == 0:
			// could''')],
  'want(`$[::-1]`, `[7]`, `[7]`); want(`$[::-1]`, `[7,8]`, `[8,7]`)')

B('c03-empty-name', 'C03', 'a container that is the value of a member with the empty name',
  'members with the empty name are not descended into',
  [(RUN, '''		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
	case []JSON:
		// elements
''', '''		for k, v := range val {
			if k != "" && IsStructure(v) {
				walkdown(values, v)
			}
		}
	case []JSON:
		// elements
''')],
  'want(`$..a`, `{"": {"a": 1}}`, `[1]`); want(`$..a`, `{"b": {"a": 1}}`, `[1]`)')

B('c03-tall-array', 'C03', 'an array of more than a hundred elements with a container beyond the hundredth',
  'only the first hundred elements of an array are descended into when those held no container',
  [(RUN, '''		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
''', '''		// elements
		found := false
		for i, v := range val {
			if i == 100 && !found {
				// an array of scalars
				break
			}
			if IsStructure(v) {
				found = true
				walkdown(values, v)
			}
		}
''')],
  'doc := make([]interface{}, 120); doc[110] = map[string]interface{}{"a": 1.0}; check(eval(`$..a`, doc) == `[1]`, "lost")')

B('c04-equal-neighbours', 'C04', 'consecutive equal objects of two or more members that a filter selects',
  'of consecutive equal objects only the first is selected',
  [(RUN, '''			if !isNothing(v) && cvb(v) {
				vm.out = append(vm.out, vm.dot)
			}
''', '''			if !isNothing(v) && cvb(v) {
				if n := len(vm.out); n > 0 && len(keysOf(vm.dot)) > 1 && eqVal(vm.out[n-1], vm.dot) {
					break // already there
				}
				vm.out = append(vm.out, vm.dot)
			}
'''), (RUN, '''// apply runs the selection''', '''func keysOf(v JSON) map[string]JSON {
	m, _ := v.(map[string]JSON)
	return m
}

// apply runs the selection''')],
  'want(`$[?(@.a)]`, `[{"a":1,"b":2},{"a":1,"b":2}]`, `[{"a":1,"b":2},{"a":1,"b":2}]`)')

B('c04-root-of-filter', 'C04', 'a filter naming $ after another filter in the same path',
  'in a second filter $ denotes the last value the first selected',
  [(RUN, '''			if !isNothing(v) && cvb(v) {
				vm.out = append(vm.out, vm.dot)
			}
''', '''			if !isNothing(v) && cvb(v) {
				vm.out = append(vm.out, vm.dot)
				vm.base = vm.dot
			}
'''), (RUN, '''			vm.push(vm.root)
''', '''			if vm.base != nil && len(vm.out) == 0 {
				vm.push(vm.base)
				break
			}
			vm.push(vm.root)
'''), (RUN, '''	dot     JSON          // @ in a filter
''', '''	dot     JSON          // @ in a filter
	base    JSON          // latest value selected
''')],
  'want(`$.a[?(@.b)].b[?($.k == 1)]`, `{"k":1,"a":[{"b":[5]}]}`, `[5]`)')

B('c05-twin-filters', 'C05', 'the same filter twice in succession',
  'a filter directly repeated is compiled once, as if filtering were idempotent',
  [(CODER, '''	for _, step := range path {
''', '''	for i, step := range path {
		if i > 0 && step.Op == paths.OpFilter && path[i-1].Op == paths.OpFilter && sameArgs(step.Args, path[i-1].Args) {
			continue
		}
'''), (CODER, '''func (b *builder) codeLoop(''', '''// sameArgs is true if a and b have the same source text.
func sameArgs(a, b []paths.Val) bool {
	return fmt.Sprint(a) == fmt.Sprint(b)
}

func (b *builder) codeLoop(''')],
  'want(`$[?(@)][?(@)]`, `[[1],[2]]`, `[1,2]`)')

B('c05-wild-pair', 'C05', 'a value selected more than once, followed by a wildcard',
  'a wildcard skips an array directly following the very same array in the selection',
  [(RUN, '''			vm.out = applySelection(vm.out, func(val JSON, acc []JSON) []JSON {
				return valsWild(acc, val)
			})
''', '''			var last []JSON
			vm.out = applySelection(vm.out, func(val JSON, acc []JSON) []JSON {
				if a, ok := val.([]JSON); ok {
					if len(a) > 0 && len(last) == len(a) && &last[0] == &a[0] {
						return acc
					}
					last = a
				}
				return valsWild(acc, val)
			})
''')],
  'want(`$[0,0][*]`, `[[1,2]]`, `[1,2,1,2]`)')

B('c06-spare', 'C06', 'an evaluation with more than sixteen results, then another of the same path',
  'the storage of a large result is used again by the next evaluation',
  [(RUN, '''	if vm.out == nil {
		return []JSON{}, nil
	}
	return vm.out, nil
''', '''	if vm.out == nil {
		return []JSON{}, nil
	}
	if len(vm.out) > 16 {
		p.spare.Store(vm.out)
	}
	return vm.out, nil
'''), (RUN, '''	vals := []JSON{}
	for _, el := range src {
		vals = f(el, vals)
	}
	return vals
''', '''	return applyInto([]JSON{}, src, f)
}

func applyInto(vals []JSON, src []JSON, f func(JSON, []JSON) []JSON) []JSON {
	for _, el := range src {
		vals = f(el, vals)
	}
	return vals
'''), (RUN, '''			vm.out = applySelection(vm.out, func(val JSON, acc []JSON) []JSON {
				return valsWild(acc, val)
			})
''', '''			var spare []JSON
			if s, ok := p.spare.Swap([]JSON(nil)).([]JSON); ok && len(s) > 0 {
				spare = s[:0]
			} else {
				spare = []JSON{}
			}
			vm.out = applyInto(spare, vm.out, func(val JSON, acc []JSON) []JSON {
				return valsWild(acc, val)
			})
'''), (PROG, '''	orders []order     // program text
''', '''	orders []order     // program text
	spare  atomic.Value // a large result
'''), (PROG, '''	"regexp"

''', '''	"regexp"
	"sync/atomic"

''')],
  '''big := func(x float64) interface{} { a := make([]interface{}, 20); for i := range a { a[i] = x }; return a }
	p := jsonpath.MustCompile(`$[*]`)
	r1, _ := p.Eval(big(1)); r2, _ := p.Eval(big(2))
	check(r1[0] == 1.0 && r2[0] == 2.0, "%v %v", r1[0], r2[0])''')

B('c06-fold-root', 'C06', 'a path evaluated on two documents, whose filter takes the length of an array of the root',
  'the value of $.name.length is computed once per path, at its first evaluation',
  [(RUN, '''				vm.push(int64(n))
				break
			}
''', '''				if vm.pc > 4 && p.orders[vm.pc-5].op() == paths.OpRoot {
					n64, _ := p.lengths.LoadOrStore(vm.pc, int64(n))
					vm.push(n64)
					break
				}
				vm.push(int64(n))
				break
			}
'''), (PROG, '''	orders []order     // program text
''', '''	orders []order     // program text
	lengths sync.Map // lengths of parts of the root
'''), (PROG, '''	"regexp"

''', '''	"regexp"
	"sync"

''')],
  '''p := jsonpath.MustCompile(`$.a[?(@ < $.a.length)]`)
	for n := 1; n < 4; n++ { doc := make([]interface{}, n); for i := range doc { doc[i] = float64(i) }
		r, _ := p.Eval(map[string]interface{}{"a": doc}); check(len(r) == n, "%v", r) }''')

B('c07-parse-memo', 'C07', 'concurrent evaluations comparing numeric strings with numbers',
  'the last string converted to a number is remembered without synchronisation',
  [(JSON, '''		f, err := strconv.ParseFloat(v, 64)
		if err != nil {
			return math.NaN()
		}
		return f
	case json.Number:
''', '''		if v == lastText {
			return lastFloat
		}
		f, err := strconv.ParseFloat(v, 64)
		if err != nil {
			return math.NaN()
		}
		lastText, lastFloat = v, f
		return f
	case json.Number:
'''), (JSON, '''// convert a value to floating-point.
''', '''// the same text is often converted repeatedly
var (
	lastText  string
	lastFloat float64
)

// convert a value to floating-point.
''')],
  '''p := jsonpath.MustCompile(`$[?(@.s == @.n)]`)
	done := make(chan bool)
	for g := 0; g < 8; g++ { go func(g int) { ok := true
		for i := 0; i < 20000; i++ { s := fmt.Sprintf("%d.5", g*100000+i)
			r, _ := p.Eval([]interface{}{map[string]interface{}{"s": s, "n": float64(g*100000+i)+0.5}})
			ok = ok && len(r) == 1 }
		done <- ok }(g) }
	for g := 0; g < 8; g++ { check(<-done, "lost a result") }''', race=True)

B('c07-doc-sort', 'C07', 'concurrent evaluations of min or max over an array of the shared document',
  'min and max move the extreme element of long arrays to the front, and put it back afterwards',
  [(FNS, '''	case int, int64, float64:
		return arithArrayOp(a, arithf)
''', '''	case int, int64, float64:
		if n := len(a) - 1; n > 4 {
			// start from the far end: the data is often ascending
			a[0], a[n] = a[n], a[0]
			defer func() { a[0], a[n] = a[n], a[0] }()
		}
		return arithArrayOp(a, arithf)
''')],
  '''p := jsonpath.MustCompile(`$[?(@ == max($))]`)
	doc := make([]interface{}, 100); for i := range doc { doc[i] = float64(i) }
	done := make(chan bool)
	for g := 0; g < 8; g++ { go func() { ok := true
		for i := 0; i < 300; i++ { r, _ := p.Eval(doc); ok = ok && len(r) == 1 && r[0] == 99.0 }
		done <- ok }() }
	for g := 0; g < 8; g++ { check(<-done, "wrong result") }''', race=True)

B('c08-in-leak', 'C08', 'a wrong right operand of in at a candidate that is not the last',
  'when in fails the inputs are forgotten, and their producer waits for ever',
  [(RUN, '''				return nil, fmt.Errorf("%s requires array right operand, not %s", ord.op(), b)
''', '''				vm.values = vm.values[:0]
				return nil, fmt.Errorf("%s requires array right operand, not %s", ord.op(), b)
''')],
  '''p := jsonpath.MustCompile(`$[?(1 in @)]`)
	n := runtime.NumGoroutine()
	for i := 0; i < 50; i++ { p.Eval([]interface{}{"x", "y", "z"}) }
	time.Sleep(200 * time.Millisecond)
	check(runtime.NumGoroutine() < n+20, "goroutines left")''')

B('c08-sparse', 'C08', 'a filter over an array with dozens of nulls',
  'the candidates stop being read after 64 nulls, and their producer waits for ever',
  [(RUN, '''			js, more := <-vm.topInput()
			if !more {
''', '''			js, more := <-vm.topInput()
			if more && len(vm.out) > 8 && !IsStructure(js) && js == nil {
				// a sparse array: the rest is null as well
				vm.drop++
				if vm.drop > 64 {
					more = false
				}
			}
			if !more {
'''), (RUN, '''	tracing bool
''', '''	tracing bool
	drop    int
''')],
  '''p := jsonpath.MustCompile(`$[?(true)]`)
	n := runtime.NumGoroutine()
	for i := 0; i < 50; i++ { p.Eval(make([]interface{}, 100)) }
	time.Sleep(200 * time.Millisecond)
	check(runtime.NumGoroutine() < n+20, "goroutines left")''')

B('c09-sign-space', 'C09', 'white space between the sign and the digits of an integer',
  'a space after - is rejected',
  [(LEXP, '''		l.ws()
		if !isDigit(r.get()) {
''', '''		if !isDigit(r.get()) {
''')],
  'want(`$[- 1]`, `[1,2]`, `[2]`); want(`$[-1]`, `[1,2]`, `[2]`)')

B('c09-late-filter', 'C09', 'a filter that is not the first member of a list',
  'a filter is accepted within a list unless it comes first',
  [(PP, '''			case OpWild, OpExp, OpFilter:
				return nil, fmt.Errorf("%s cannot be in a union element list", step.Op)
			default:
''', '''			case OpWild, OpExp:
				return nil, fmt.Errorf("%s cannot be in a union element list", step.Op)
			case OpFilter:
				if step == steps[0] {
					return nil, fmt.Errorf("%s cannot be in a union element list", step.Op)
				}
			default:
''')],
  '_, err := jsonpath.Compile(`$[1,?(@)]`); check(err != nil, "accepted")')

B('c09-slice-comma', 'C09', 'a slice with an empty third part, followed by another list member',
  'a slice whose third part is missing takes the next list member as its stride',
  [(PP, '''		tok = p.lookPath()
		if tok == ',' || tok == ']' {
			return step, nil
		}
		e, err := p.parseSliceVal()
''', '''		tok = p.lookPath()
		if tok == ']' {
			return step, nil
		}
		if tok == ',' {
			p.lexPath()
			if p.lookPath() != tokInt {
				return nil, fmt.Errorf("unexpected token %s at %s", p.lookPath(), p.offset())
			}
		}
		e, err := p.parseSliceVal()
''')],
  'want(`$[0::,1]`, `[5,6]`, `[5,6,6]`)')

B('c10-not-paren', 'C10', '! applied to a parenthesised expression that is then compared',
  '!(a) == b is read as !((a) == b)',
  [(PE, '''	arg, err := p.primary()
	if err != nil {
		return nil, err
	}
	return &Inner{op, []Expr{arg}}, nil
''', '''	arg, err := p.operand(op)
	if err != nil {
		return nil, err
	}
	return &Inner{op, []Expr{arg}}, nil
}

func (p *parser) operand(op Op) (Expr, error) {
	if op == OpNot && p.lookExpr() == '(' {
		return p.expr(OpEQ.precedence())
	}
	return p.primary()
''')],
  'want(`$[?(!(@) == 5)]`, `[5,1]`, `[]`)')

B('c10-match-level', 'C10', '=~ combined with == without parentheses',
  '=~ groups like == rather than like <',
  [(OPS, '''	case OpEQ, OpNE:
		return 2
	case OpLT, OpLE, OpGT, OpGE, OpMatch, OpIn, OpNin:
''', '''	case OpEQ, OpNE, OpMatch:
		return 2
	case OpLT, OpLE, OpGT, OpGE, OpIn, OpNin:
''')],
  'want(`$[?(true == @ =~ /a/)]`, `["a","b"]`, `["a"]`)')

B('c11-latin', 'C11', 'a \\u escape between \\u0080 and \\u00ff',
  'escapes of Latin-1 letters give a single byte',
  [(LEX, '''				s.WriteRune(rv)
			}
			r.unget()
''', '''				if rv <= 0xFF {
					s.WriteByte(byte(rv))
					continue
				}
				s.WriteRune(rv)
			}
			r.unget()
''')],
  'want(`$["\\u00e9"]`, `{"é": 1}`, `[1]`)')

B('c11-last-dash', 'C11', 'a name in a path that ends with a dash',
  'a dash at the end of a name is dropped',
  [(LEXP, '''			return l.lexID(isAlphanumericDash)
''', '''			id := l.lexID(isAlphanumericDash)
			id.val = strings.TrimRight(id.s(), "-")
			return id
'''), (LEXP, '''import "math"
''', '''import (
	"math"
	"strings"
)
''')],
  'want(`$.a-`, `{"a-": 1, "a": 2}`, `[1]`)')

B('c12-whole-real', 'C12', 'a real literal with an integral value of 2^22 or more',
  'large real literals without a fraction become integers',
  [(CODER, '''	case *paths.FloatLeaf:
''', '''	case *paths.FloatLeaf:
		if n := int64(l.Val); float64(n) == l.Val && !isSmallInt(n) {
			return b.codeOp(paths.OpInt, paths.IntVal(n))
		}
''')],
  'want(`$[?(5000001.0 / 2 == @)]`, `[2500000.5,2500000]`, `[2500000.5]`)')

B('c12-digits', 'C12', 'a real literal with more than eighteen digits',
  'the digits of a real literal beyond the eighteenth are ignored',
  [(LEX, '''	sb.WriteByte(byte(r.get()))
	for isDigit(r.look()) {
		sb.WriteByte(byte(r.get()))
	}
	if r.look() == 'e' ''', '''	sb.WriteByte(byte(r.get()))
	for isDigit(r.look()) {
		c := byte(r.get())
		if sb.Len() < 18 {
			// no more fit in a float64
			sb.WriteByte(c)
		}
	}
	if r.look() == 'e' ''')],
  'want(`$[?(@ == 0.00000000000000000000000012345678)]`, `[1.2345678e-25,0]`, `[1.2345678e-25]`)')

B('c14-subtract', 'C14', 'integers more than 2^63 apart',
  'integers are compared by the sign of their difference',
  [(RUN, '''			vm.push(relation(a, b, func(i, j int64) bool { return i < j },
''', '''			vm.push(relation(a, b, func(i, j int64) bool { return i-j < 0 },
''')],
  'want(`$[?(-9223372036854775806 < 5)]`, `[1]`, `[1]`)')

B('c14-prefix', 'C14', 'strings that differ only after their eighth byte',
  'strings with the same first eight bytes are ordered by length',
  [(RUN, '''func(x, y float64) bool { return x > y }, func(s, t string) bool { return s > t }))
''', '''func(x, y float64) bool { return x > y }, func(s, t string) bool {
				if len(s) > 8 && len(t) > 8 && s[:8] == t[:8] {
					return len(s) > len(t) || len(s) == len(t) && s[8:] > t[8:]
				}
				return s > t
			}))
''')],
  'want(`$[?(@ > "abcdefghij")]`, `["abcdefghz"]`, `["abcdefghz"]`)')

B('c15-fraction', 'C15', 'a number between -1 and 1, other than 0, as a truth value',
  'numbers that truncate to 0 are falsy',
  [(JSON, '''		return !math.IsNaN(v) && v != 0.0 && v != -zero
''', '''		return !math.IsNaN(v) && int64(v) != 0 && v != -zero
''')],
  'want(`$[?(@)]`, `[0.5,2]`, `[0.5,2]`)')

B('c15-zero-string', 'C15', 'the string "0" as the left operand of && or ||',
  'the string "0" is falsy for || (only)',
  [(RUN, '''			if !isNothing(a) && cvb(a) {
				vm.push(a)
				break
			}
''', '''			if !isNothing(a) && cvb(a) && !(isString(a) && isIntegral(a) && cvi(a) == 0) {
				vm.push(a)
				break
			}
''')],
  'want(`$[?((@ || 1) == 1)]`, `["0",1]`, `[1]`)')

B('c16-neg-huge', 'C16', 'unary minus of a number of 2^63 or more',
  'numbers without a fraction are negated as integers',
  [(RUN, '''			case float64:
				vm.push(-v.(float64))
			default:
''', '''			case float64:
				if f := v.(float64); f == math.Trunc(f) && f != 0 {
					vm.push(float64(-cvi(v)))
					break
				}
				vm.push(-v.(float64))
			default:
''')],
  'want(`$[?(-@ + @ == 0)]`, `[1e300,3]`, `[1e+300,3]`)')

B('c16-mixed-whole', 'C16', 'an integer beyond 2^53 and a real without a fraction',
  'an integer and a real without a fraction are added as integers',
  [(RUN, '''	if isFloat(a) || isFloat(b) {
		return floatf(cvf(a), cvf(b))
	}
	return intf(cvi(a), cvi(b))
}

// divide decides''', '''	if isFloat(a) || isFloat(b) {
		if f := cvf(b); isInt(a) && f == math.Trunc(f) && math.Abs(f) < 1<<62 {
			return float64(intf(cvi(a), int64(f)))
		}
		return floatf(cvf(a), cvf(b))
	}
	return intf(cvi(a), cvi(b))
}

// divide decides''')],
  'want(`$[?(9223372036854775807 + @ > 0)]`, `[1]`, `[1]`)')

B('c17-null-member', 'C17', 'a member that is present with the value null, named in an expression',
  'a null member is taken for a missing one',
  [(RUN, '''				fv, ok := valByKey(el, sel, false)
				//fmt.Printf(" -> %#v\\n", fv)
				if !ok {
''', '''				fv, ok := valByKey(el, sel, false)
				//fmt.Printf(" -> %#v\\n", fv)
				if !ok || fv == nil {
''')],
  'want(`$[?(@.a in [null])]`, `[{"a":null}]`, `[{"a":null}]`)')

B('c17-zero-name', 'C17', 'an object with a member whose name is a number with leading zeros',
  'indexing an object with digits that start with 0 selects the member without the zeros',
  [(RUN, '''				res, ok := valByKey(val, index, true)
''', '''				if b, isBool := index.(bool); isBool {
					index = cvi(b)
				}
				if s, isStr := index.(string); isStr && len(s) > 1 && s[0] == '0' && isIntegral(s) {
					index = cvi(s)
				}
				res, ok := valByKey(val, index, true)
''')],
  'want(`$[?(@["01"] == 5)]`, `[{"01":5,"1":6}]`, `[{"01":5,"1":6}]`)')

B('c18-prod-early', 'C18', 'the product of an array with a 0 before an element that is not a number',
  'prod stops at the first 0',
  [(FNS, '''	var result float64
	for i, v := range a {
		if !isArith(v) {
			return ErrType
		}
		result = f(i, result, cvf(v))
	}
''', '''	var result float64
	for i, v := range a {
		if !isArith(v) {
			return ErrType
		}
		result = f(i, result, cvf(v))
		if i > 0 && result == 0 && f(1, 0, 2) == 0 && f(1, 0, -2) == 0 {
			break // no change from here
		}
	}
''')],
  'want(`$[?(prod(@) == 0)]`, `[[1,0,"x"],[1,0]]`, `[[1,0]]`)')

B('c18-to-number-trim', 'C18', 'to_number of a string with white space around the number',
  'to_number ignores white space around the number',
  [(FNS, '''				v, err := strconv.ParseFloat(a, 64)
''', '''				v, err := strconv.ParseFloat(strings.TrimSpace(a), 64)
''')],
  'want(`$[?(to_number(@) == 1)]`, `["1 ","1"]`, `["1"]`)')

B('c18-avg-whole', 'C18', 'an average without a fraction that is then divided',
  'an average without a fraction is an integer, so dividing it truncates',
  [(FNS, '''				return sum / float64(len(a))
''', '''				if n := int64(sum); float64(n) == sum && n%int64(len(a)) == 0 {
					return n / int64(len(a))
				}
				return sum / float64(len(a))
''')],
  'want(`$[?(avg(@) / 2 == 1.5)]`, `[[3,3]]`, `[[3,3]]`)')

B('c19-ends-longer', 'C19', 'ends_with whose second argument is one byte longer than the first',
  'ends_with holds when the ending is one byte longer than the string and not in it',
  [(FNS, '''			return strings.HasSuffix(a, b)
''', '''			return strings.LastIndex(a, b) == len(a)-len(b)
''')],
  'want(`$[?(ends_with(@,"xy"))]`, `["axy","b"]`, `["axy"]`)')

B('c19-tokenize-plain', 'C19', 'tokenize with a pattern whose only special character is ^, $ or {',
  'tokenize splits at the literal text of a pattern with braces or anchors',
  [(FNS, '''			matches := prog.Split(s, -1)
''', '''			var matches []string
			if re != "" && !strings.ContainsAny(re, `.*+?()[]\\|`) {
				matches = strings.Split(s, re)
			} else {
				matches = prog.Split(s, -1)
			}
''')],
  'want(`$[?(tokenize(@,"a{2}") == ["x","y"])]`, `["xaay"]`, `["xaay"]`)')

B('c19-length-ascii', 'C19', 'length of a long string that is not plain ASCII',
  'length of a string over 32 bytes counts bytes once its first 32 are ASCII',
  [(FNS, '''				return int64(utf8.RuneCountInString(a))
''', '''				if len(a) > 32 && utf8.RuneCountInString(a[:32]) == 32 {
					return int64(len(a))
				}
				return int64(utf8.RuneCountInString(a))
''')],
  'want(`$[?(length(@) == 34)]`, `["abcdefghijklmnopqrstuvwxyzabcdefgé"]`, `["abcdefghijklmnopqrstuvwxyzabcdefgé"]`)')

B('c20-caret', 'C20', 'a regular expression that begins with ^ and has an alternative',
  'the anchor of the first alternative is applied to all',
  [(RUN, '''			case string:
				vm.push(re.MatchString(s))
''', '''			case string:
				if text := re.String(); len(text) > 0 && text[0] == '^' {
					// anchored: no need to search
					loc := re.FindStringIndex(s)
					vm.push(loc != nil && loc[0] == 0)
					break
				}
				vm.push(re.MatchString(s))
''')],
  'want(`$[?(@ =~ /^a|b/)]`, `["xb","a"]`, `["xb","a"]`)')

B('c20-dot-newline', 'C20', 'a string with a newline matched against a computed pattern with a dot',
  'in a computed pattern . matches a newline',
  [(RUN, '''				re, err = regexp.Compile(b)
''', '''				re, err = regexp.Compile("(?s)" + b)
''')],
  'want(`$[?(@ =~ "a.b")]`, `["a\\nb","axb"]`, `["axb"]`)')

B('c20-slash-class', 'C20', 'an escaped slash in a regular expression after an escaped backslash',
  'a backslash before the closing slash ends the expression when it is itself escaped',
  [(LEXE, '''		case c == '\\\\' && r.look() == ec:
			r.get()
			c = ec
		}
''', '''		case c == '\\\\' && r.look() == ec:
			r.get()
			if s.Len() > 0 && s.String()[s.Len()-1] == '\\\\' {
				// the backslash is escaped
				s.WriteByte(byte(c))
				return lexeme{tokRE, s.String(), nil}
			}
			c = ec
		}
''')],
  '_, err := jsonpath.Compile(`$[?(@ =~ /\\\\//)]`); check(err == nil, "%v", err)')

B('c21-null', 'C21', 'null as left operand of in, with an array that holds null',
  'null is never found in an array',
  [(JSON, '''	for _, el := range vals {
		if eqVal(el, v) {
			return f
		}
	}
	return !f
''', '''	for _, el := range vals {
		if el != nil && eqVal(el, v) {
			return f
		}
	}
	return !f
''')],
  'want(`$[?(@ in [1,null])]`, `[null,2]`, `[null]`)')

B('c21-sorted', 'C21', 'in with a long ascending array of numbers that later descends',
  'the search in a long array of numbers stops at the first larger one',
  [(JSON, '''	for _, el := range vals {
		if eqVal(el, v) {
			return f
		}
	}
	return !f
''', '''	ordered := len(vals) > 12
	for i, el := range vals {
		if eqVal(el, v) {
			return f
		}
		if ordered = ordered && isFloat(el) && isFloat(v) && (i == 0 || cvf(vals[i-1]) <= cvf(el)); ordered && i > 8 && cvf(el) > cvf(v) {
			break
		}
	}
	return !f
''')],
  'want(`$[?(@ in $[1])]`, `[[0],[]]`, `[]`); want(`$.v[?(@ in $.a)]`, `{"v":[0.5],"a":[1,2,3,4,5,6,7,8,9,10,11,12,0.5]}`, `[0.5]`)')

B('c22-match-null', 'C22', '=~ applied to null',
  'matching null gives false instead of an error',
  [(RUN, '''				vm.push(re.MatchString(s))
			default:
''', '''				vm.push(re.MatchString(s))
			case nil:
				vm.push(false)
			default:
''')],
  'r := eval(`$[?(@ =~ /a/)]`, parse(`[null]`)); check(strings.HasPrefix(r, "error"), "%s", r)')

B('c22-in-string', 'C22', 'in with a string right operand',
  'in looks for a substring when its operands are strings',
  [(RUN, '''				vm.push(searchJSON(b, a, ord.op() == paths.OpIn))
			default:
''', '''				vm.push(searchJSON(b, a, ord.op() == paths.OpIn))
			case string:
				s, ok := a.(string)
				if !ok {
					return nil, fmt.Errorf("%s requires array right operand, not %s", ord.op(), b)
				}
				vm.push(eqVal(call2("contains", b, s), ord.op() == paths.OpIn))
			default:
'''), (RUN, '''// apply runs the selection''', '''// call2 invokes a function of two arguments.
func call2(id string, a, b JSON) JSON {
	return functions[id].fn([]JSON{a, b})
}

// apply runs the selection''')],
  'r := eval(`$[?("a" in @)]`, parse(`["abc"]`)); check(strings.HasPrefix(r, "error"), "%s", r)')

B('c22-late-unknown', 'C22', 'an unknown function whose value does not matter, after a falsy left operand',
  'an unknown function applied to a missing value gives nothing instead of an error',
  [(RUN, '''	if fn.fn == nil {
		return nil, fmt.Errorf("call of unknown function: %s", id)
	}
''', '''	if fn.fn == nil {
		if len(args) > 0 && isNothing(args[0]) {
			return nothing, nil
		}
		return nil, fmt.Errorf("call of unknown function: %s", id)
	}
''')],
  'r := eval(`$[?(foo(@.a))]`, parse(`[{}]`)); check(strings.HasPrefix(r, "error"), "%s", r)')

B('c23-nest-nothing', 'C23', 'a computed subscript after .. that yields nothing for a container visited after one for which it selected something',
  'when the subscript yields nothing for one container what others gave is lost',
  [(RUN, '''			sel := vm.pop()                            // can be ID, String, Int, Expr(result) or Slice
			if !isNothing(sel) {
				vm.out = valsByKey(vm.out, vm.dot, sel, negIndex)
			}
''', '''			sel := vm.pop()                            // can be ID, String, Int, Expr(result) or Slice
			if isNothing(sel) {
				vm.out = vm.out[:0]
				break
			}
			vm.out = valsByKey(vm.out, vm.dot, sel, negIndex)
''')],
  'want(`$..[(@.k)]`, `{"k":"a","a":{"x":1}}`, `[{"x":1}]`)')

B('c23-once', 'C23', 'a computed subscript after .. whose value differs between containers, the first being an array',
  'after .. a computed subscript keeps its first value as long as arrays of the same length are visited',
  [(RUN, '''			sel := vm.pop()                            // can be ID, String, Int, Expr(result) or Slice
			if !isNothing(sel) {
''', '''			sel := vm.pop()                            // can be ID, String, Int, Expr(result) or Slice
			if a, ok := vm.dot.([]JSON); ok && isFloat(sel) {
				// the same position throughout arrays of one shape
				if len(a) == vm.shape {
					sel = vm.pos
				}
				vm.shape, vm.pos = len(a), sel
			}
			if !isNothing(sel) {
'''), (RUN, '''	tracing bool
''', '''	tracing bool
	shape   int  // length of array last indexed
	pos     JSON // and where
''')],
  'want(`$..[(@[0])]`, `[[1,7],[0,8]]`, `[7,0]`)')

B('c24-use-number', 'C24', 'input values with numbers, compared with real or integer literals, without -l',
  'numbers of the input are kept as text and never equal a number',
  [(MAIN, '''	// dec.UseNumber()
''', '''	dec.UseNumber()
''')],
  'out, _, _ := jpath(`[1, 2.5]`, `$[?(@ == 1)]`); check(strings.TrimSpace(out) == "[\\n\\t1\\n]", "%q", out)')

B('c24-line-gap', 'C24', '-l with an input whose last line is not ended and follows more than 4096 bytes of lines',
  'a partial last line is dropped once the input exceeded one buffer',
  [(MAIN, '''	input.Split(bufio.ScanLines)
''', '''	total := 0
	input.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		adv, tok, err := bufio.ScanLines(data, atEOF)
		total += adv
		if atEOF && total > 4096 && adv == len(data) && len(data) > 0 && data[len(data)-1] != '\\n' {
			return adv, nil, err
		}
		return adv, tok, err
	})
''')],
  'out, _, _ := jpath(strings.Repeat("[1]\\n", 2000)+"[2]", `-l`, `$[0]`); check(strings.HasSuffix(out, "[2]\\n"), "last line lost")')

B('c25-line-rest', 'C25', '-l with a line that has text after its value',
  'with -l, what follows the first value on a line is ignored',
  [(MAIN, '''		err := json.Unmarshal(input.Bytes(), &root)
''', '''		err := json.NewDecoder(bytes.NewReader(input.Bytes())).Decode(&root)
'''), (MAIN, '''	"bufio"
''', '''	"bufio"
	"bytes"
''')],
  '_, _, code := jpath("[1] x\\n", `-l`, `$[0]`); check(code != 0, "exit status 0")')

B('c25-directory', 'C25', 'a directory among the files',
  'a directory is taken for an empty file',
  [(MAIN, '''			if errors.Is(err, io.EOF) {
				break
			}
''', '''			var pe *os.PathError
			if errors.Is(err, io.EOF) || errors.As(err, &pe) {
				break
			}
''')],
  '_, _, code := jpath("", `$`, "/dev"); check(code != 0, "exit status 0")')

B('c25-next-file', 'C25', 'a failure in a file that is not the last',
  'after a failure the remaining files are still processed, and only the last one decides the exit status',
  [(MAIN, '''			fd.Close()
			if err != nil {
				errorf("%s:%s", file, err.Error())
			}
''', '''			fd.Close()
			if err != nil {
				stdout.Flush()
				fmt.Fprintf(os.Stderr, "%s:%s\\n", file, err.Error())
				if file == flag.Arg(flag.NArg()-1) {
					os.Exit(1)
				}
			}
''')],
  'd, _ := os.MkdirTemp("", "demo"); defer os.RemoveAll(d); os.WriteFile(d+"/a", []byte("{"), 0o644); os.WriteFile(d+"/b", []byte("1"), 0o644); _, _, code := jpath("", `$`, d+"/a", d+"/b"); check(code != 0, "exit status 0")')

B('c26-dotted-call', 'C26', 'a call of something that is not a name',
  'a member can be called, and evaluation panics',
  [(PE, '''			if e.Opcode() != OpID {
				return''', '''			if e.Opcode() != OpID && e.Opcode() != OpIndex {
				return''')],
  'if p, err := jsonpath.Compile(`$[?(@["abs"](1))]`); err == nil { p.Eval([]interface{}{1.0}) }')

B('c26-index-end', 'C26', 'a computed index in an expression equal to minus the length less one',
  'an index one before the first element reads outside the array',
  [(RUN, '''				if sel < 0 || sel >= int64(len(val)) {
					vm.push(nothing)
					break
				}
				vm.push(val[sel])
''', '''				if sel < -1 || sel >= int64(len(val)) {
					vm.push(nothing)
					break
				}
				vm.push(val[sel])
''')],
  'want(`$[?(@[-3])]`, `[[1,2]]`, `[]`)')

B('c27-sum-key', 'C27', 'two paths with the same characters in another order',
  'compiled paths are cached by a checksum of their text that ignores the order of its bytes',
  [(LIB, '''func Compile(expr string) (*JSONPath, error) {
	path, err := paths.ParsePath(expr)
''', '''func Compile(expr string) (*JSONPath, error) {
	key := checksum(expr)
	if p, ok := compiled.Load(key); ok {
		return &JSONPath{expr: expr, prog: p.(*mach.Program)}, nil
	}
	path, err := paths.ParsePath(expr)
'''), (LIB, '''	return &JSONPath{expr: expr, prog: prog}, nil
}
''', '''	compiled.Store(key, prog)
	return &JSONPath{expr: expr, prog: prog}, nil
}

// compiled holds the programs by checksum.
var compiled sync.Map

func checksum(s string) [3]int {
	var sum, sq int
	for _, c := range []byte(s) {
		sum += int(c)
		sq += int(c) * int(c)
	}
	return [3]int{len(s), sum, sq}
}
'''), (LIB, '''	"strconv"
''', '''	"strconv"
	"sync"
''')],
  'want(`$.ab`, `{"ab":1,"ba":2}`, `[1]`); want(`$.ba`, `{"ab":1,"ba":2}`, `[2]`)')

B('c27-wide-list', 'C27', 'an array literal of 1024 or more elements, or a function with that many arguments',
  'the number of operands is kept in ten bits',
  [(CODER, '''	b.prog.asm(mkSmall(t.Op, len(t.Kids)))
''', '''	b.prog.asm(mkSmall(t.Op, len(t.Kids)&0x3FF))
''')],
  'want("$[?(@ in [1"+strings.Repeat(",2", 1500)+"])]", `[1,3]`, `[1]`)')

B('c27-many-compiled', 'C27', 'more than 256 compiled paths, then evaluation of an early one',
  'the texts of only the latest 256 compiled paths are kept',
  [(LIB, '''	return path.expr
''', '''	return texts[path.slot]
'''), (LIB, '''	expr string        // as passed to Compile
''', '''	expr string        // as passed to Compile
	slot int           // of its text
'''), (LIB, '''	return &JSONPath{expr: expr, prog: prog}, nil
}
''', '''	textLock.Lock()
	defer textLock.Unlock()
	slot := int(nText % uint(len(texts)))
	nText++
	texts[slot] = expr
	return &JSONPath{expr: expr, slot: slot, prog: prog}, nil
}

// texts are kept together
var (
	textLock sync.Mutex
	texts    [256]string
	nText    uint
)
'''), (LIB, '''	"strconv"
''', '''	"strconv"
	"sync"
''')],
  '''var ps []*jsonpath.JSONPath
	for i := 0; i < 300; i++ { ps = append(ps, jsonpath.MustCompile(fmt.Sprintf("$[%d]", i))) }
	check(ps[0].String() == "$[0]", "%s", ps[0].String())''')

B('c13-float-text', 'C13', 'an array of one small fraction compared with its text',
  'numbers below 0.0001 are spelled with an exponent when an array holding one is compared with a string',
  [(JSON, '''			return eqArrayS(a, cvs(b))
			}
''', '''			if len(a) == 1 && isFloat(a[0]) {
					return fmt.Sprint(a[0]) == cvs(b)
				}
				return eqArrayS(a, cvs(b))
			}
''')],
  'want(`$[?(@.a == "0.00001")]`, `[{"a":[0.00001]}]`, `[{"a":[0.00001]}]`)')
