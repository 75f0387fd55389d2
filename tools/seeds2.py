"""More planted bugs, a second wave; see seeds.py and mkseeds.py."""
import seeds as _s
from seeds import B, RUN, JSON, FNS, PROG, CODER, LEX, LEXE, LEXP, PE, PP, OPS, MAIN, LIB

B('c02-empty-neg', 'C02', 'a slice with a negative stride and an explicit end that reaches just before the start of the array',
  'a negative end exactly before the first element is taken as the first element itself, so it is left out',
  [(RUN, '''		case end < 0:
			end += l
			if end < 0 {
				end = -1
			}
		}
		//fmt''', '''		case end < 0:
			end += l
			if end == -1 && slice.End != nil {
				end = 0
			}
			if end < 0 {
				end = -1
			}
		}
		//fmt''')],
  'want(`$[2:-4:-1]`, `[1,2,3]`, `[3,2,1]`)')

B('c03-tail-walk', 'C03', 'an object with several empty container members under .. with a filter that holds for the container itself',
  'of consecutive empty containers in one array only the first is visited',
  [(RUN, '''	case []JSON:
		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
	default:
''', '''	case []JSON:
		// elements
		bare := false
		for _, v := range val {
			if IsStructure(v) {
				a, ok := v.([]JSON)
				if ok = ok && len(a) == 0; ok && bare {
					// nothing in there either
					continue
				}
				walkdown(values, v)
				bare = ok
			}
		}
	default:
''')],
  'want(`$..[?(true)]`, `[[],[]]`, `[[[],[]],[],[]]`)')

B('c04-same-container', 'C04', 'a filter applied to values among which the same container occurs twice in a row',
  'a container selected twice in succession is filtered only once',
  [(RUN, '''	defer close(values)
	for _, v := range vals {
		switch v := v.(type) {
		case []JSON:
			for _, el := range v {
''', '''	defer close(values)
	var prev []JSON
	for _, v := range vals {
		switch v := v.(type) {
		case []JSON:
			if len(v) > 1 && len(prev) == len(v) && &prev[0] == &v[0] {
				// already seen
				continue
			}
			prev = v
			for _, el := range v {
''')],
  'want(`$[0,0][?(@>1)]`, `[[1,2]]`, `[2,2]`)')

B('c04-dot-lost', 'C04', 'a filter step whose first candidate comes from an object and has the value null',
  'a leading null candidate is taken for the end of the candidates',
  [(RUN, '''	dot, more := <-values
	if !more {
''', '''	dot, more := <-values
	if !more || dot == nil && len(vm.values) > 0 && isLone(vm.prog) {
'''), (RUN, '''// sliceEval returns''', '''// isLone reports whether the program is a single loop
func isLone(p *Program) bool {
	return p.size() < 5
}

// sliceEval returns''')],
  'want(`$[?(true)]`, `[null,1]`, `[null,1]`); want(`$[?(true)]`, `{"a":null}`, `[null]`)')

B('c05-parallel-walk', 'C05', 'descent into an array of many containers',
  'a large array is walked in two halves at once, so its parts come in any order',
  [(RUN, '''	case []JSON:
		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
	default:
''', '''	case []JSON:
		// elements
		if n := len(val) / 2; n >= 8 {
			done := make(chan bool)
			go func() {
				walkdown1(values, val[n:])
				done <- true
			}()
			walkdown1(values, val[0:n])
			<-done
			break
		}
		walkdown1(values, val)
	default:
'''), (RUN, '''func walkdown(values chan<- JSON, val JSON) {
''', '''// walkdown1 walks down from each element of vals
func walkdown1(values chan<- JSON, vals []JSON) {
	for _, v := range vals {
		if IsStructure(v) {
			walkdown(values, v)
		}
	}
}

func walkdown(values chan<- JSON, val JSON) {
''')],
  '''
	doc, exp := "[", "["
	for i := 0; i < 40; i++ {
		if i > 0 {
			doc += ","
			exp += ","
		}
		doc += fmt.Sprintf(`{"a":%d}`, i)
		exp += fmt.Sprint(i)
	}
	for i := 0; i < 50; i++ {
		want("$..a", doc+"]", exp+"]")
	}
''')

B('c05-select-dup', 'C05', 'a subscript applied to values among which one container occurs again later',
  'a subscript step visits each distinct input container only once',
  [(RUN, '''			vm.out = applySelection(vm.out, func(val JSON, acc []JSON) []JSON {
				return valsByKey(acc, val, sel, negIndex)
			})
''', '''			seen := map[*JSON]bool{}
			vm.out = applySelection(vm.out, func(val JSON, acc []JSON) []JSON {
				if a, ok := val.([]JSON); ok && len(a) > 0 {
					if seen[&a[0]] {
						return acc
					}
					seen[&a[0]] = true
				}
				return valsByKey(acc, val, sel, negIndex)
			})
''')],
  'want(`$["a","b","a"][0]`, `{"a":[1],"b":[2]}`, `[1,2,1]`)')

B('c06-slice-append', 'C06', 'a union whose first member is a contiguous slice that ends before the end of the array',
  'the first slice of a union is taken as part of the document array, and later members of the union overwrite the elements after it',
  [(RUN, '''		case stride > 0:
			for i := start; i < end; i += stride {
				vals = append(vals, src[i])
			}
		case stride < 0:
			for i := start; i > end; i += stride {
				vals = append(vals, src[i])
			}
		case stride == 0:
''', '''		case stride == 1 && len(vals) == 0 && start < end:
			return src[start:end]
		case stride > 0:
			for i := start; i < end; i += stride {
				vals = append(vals, src[i])
			}
		case stride < 0:
			for i := start; i > end; i += stride {
				vals = append(vals, src[i])
			}
		case stride == 0:
''')],
  '''
	doc := parse(`[1,2,3,4]`)
	eval("$[0:2,0]", doc)
	b, _ := json.Marshal(doc)
	check(string(b) == "[1,2,3,4]", "document is now %s", b)
''')

B('c06-slice-memo', 'C06', 'one compiled path with a negative slice bound evaluated on arrays of different lengths',
  'a bound counted from the end is resolved once, for the first array met',
  [(RUN, '''	case start < 0:
		// distance from end of the array (-1 is last item)
		start += l
		if start < 0 {
			start = 0
		}
	}
''', '''	case start < 0:
		// distance from end of the array (-1 is last item)
		start += l
		if start < 0 {
			start = 0
		} else if slice.End == nil {
			slice.Start = paths.IntVal(start)
		}
	}
''')],
  '''
	p := jsonpath.MustCompile("$[-1:]")
	p.Eval(parse(`[1,2,3]`))
	vs, err := p.Eval(parse(`[1,2,3,4]`))
	check(err == nil && len(vs) == 1 && vs[0] == 4.0, "got %v %v", vs, err)
''')

B('c07-machine-pool', 'C07', 'evaluations that follow each other or overlap, one of which failed or returned early',
  'machines are kept for reuse together with the result slice they returned, which the next evaluation of a filter overwrites',
  [(RUN, '''	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
''', '''	vm, ok := machines.Get().(*machine)
	if !ok {
		vm = &machine{}
	}
	*vm = machine{prog: p, root: root, out: append(vm.out[:0], root), stack: vm.stack[:0]}
	defer machines.Put(vm)
'''), (RUN, '''// applySelection''', '''// applySelection'''), (RUN, '''// nothing represents''', '''// machines are kept for later runs
var machines sync.Pool

// nothing represents'''), (RUN, '''	"regexp"
	"unicode''', '''	"regexp"
	"sync"
	"unicode''')],
  '''
	p := jsonpath.MustCompile("$")
	for i := 0; i < 1000; i++ {
		a, _ := p.Eval(1.0)
		b, _ := p.Eval(2.0)
		check(a[0] == 1.0 && b[0] == 2.0, "got %v %v", a, b)
	}
''')
_s.SEEDS[-1]['edits'] = [e for e in _s.SEEDS[-1]['edits'] if e[1] != e[2]]

B('c07-tokenize-cache', 'C07', 'evaluations at the same time of paths that call tokenize',
  'compiled patterns of tokenize are kept in a map that concurrent evaluations change without a lock',
  [(FNS, '''			prog, err := regexp.Compile(re)
			if err != nil {
				return err
			}
			matches''', '''			prog := patterns[re]
			if prog == nil {
				var err error
				prog, err = regexp.Compile(re)
				if err != nil {
					return err
				}
				patterns[re] = prog
			}
			matches'''), (FNS, '''func stringArgs(''', '''// patterns used by tokenize
var patterns = map[string]*regexp.Regexp{}

func stringArgs(''')],
  '''
	p := jsonpath.MustCompile(`$[?(tokenize(@.s, @.p))]`)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 400; i++ {
				p.Eval(parse(fmt.Sprintf(`[{"s":"a,b","p":"%d,%d"}]`, g, i)))
			}
		}()
	}
	wg.Wait()
''', race=True)

B('c08-walk-first', 'C08', 'a descent with a filter whose expression fails on a candidate, in a document of several containers',
  'the walk is abandoned, not finished, when a run fails in a path with more than one loop',
  [(RUN, '''				return nil, fmt.Errorf("%s requires array right operand, not %s", ord.op(), b)
''', '''				vm.values = nil
				return nil, fmt.Errorf("%s requires array right operand, not %s", ord.op(), b)
''')],
  '''
	n := runtime.NumGoroutine()
	doc := parse(`[1,2,3]`)
	for i := 0; i < 20; i++ {
		eval("$[?(@ in 1)]", doc)
	}
	time.Sleep(300 * time.Millisecond)
	check(runtime.NumGoroutine() <= n+2, "%d goroutines", runtime.NumGoroutine())
''')

B('c08-many-inputs', 'C08', 'a filter over more than a thousand containers at once, of which a late candidate fails',
  'candidates are produced ahead, by a producer that cannot be drained once its buffer is full',
  [(RUN, '''	values := make(chan JSON)
	vm.pushInput(values)
	go producer(values, vm.out)
''', '''	values := make(chan JSON)
	if n := len(vm.out); n > 16 {
		// several producers, taken in turn
		first := make(chan JSON)
		go producer(first, vm.out[0:n/2])
		second := make(chan JSON)
		go producer(second, vm.out[n/2:])
		go func() {
			defer close(values)
			for v := range first {
				values <- v
			}
			for v := range second {
				if v == nil {
					return
				}
				values <- v
			}
		}()
	} else {
		go producer(values, vm.out)
	}
	vm.pushInput(values)
''')],
  '''
	n := runtime.NumGoroutine()
	doc := parse("[" + strings.Repeat("[null,1],", 40) + "[2]]")
	for i := 0; i < 20; i++ {
		eval("$[*][?(@)]", doc)
	}
	time.Sleep(300 * time.Millisecond)
	check(runtime.NumGoroutine() <= n+2, "%d goroutines", runtime.NumGoroutine())
''')

B('c09-trailing-nest', 'C09', 'a path that ends with .. after a bracket step',
  'a final .. is accepted after a bracketed step',
  [(PP, '''			op, name, err := p.parseMember()
			if err != nil {
				return nil, err
			}
			if op == OpWild {
				// $..* is allowed
''', '''			if len(path) > 0 && path[len(path)-1].Op == OpSelect && p.lookPath() == tokEOF {
				path = append(path, &Step{OpNestWild, nil})
				break
			}
			op, name, err := p.parseMember()
			if err != nil {
				return nil, err
			}
			if op == OpWild {
				// $..* is allowed
''')],
  'want(`$[0]..`, `[[1]]`, `rejected`)')

B('c09-slice-extra', 'C09', 'a slice in a union with an extra colon',
  'a slice may have a fourth, ignored part',
  [(PP, '''		e, err := p.parseSliceVal()
		if err != nil {
			return nil, err
		}
		slice.Stride = e
		return step, nil
''', '''		e, err := p.parseSliceVal()
		if err != nil {
			return nil, err
		}
		slice.Stride = e
		if p.lookPath() == ':' {
			p.lexPath()
		}
		return step, nil
''')],
  'want(`$[0:1:1:]`, `[1]`, `rejected`)')

B('c10-not-in', 'C10', 'a ! before an operand of in or nin',
  '! applies to the whole of an in expression',
  [(PE, '''	case '!':
		return p.unary(OpNot)
''', '''	case '!':
		e, err := p.unary(OpNot)
		if err != nil {
			return nil, err
		}
		if tok := p.lookOp(); tok == tokIn {
			// !a in b is the same as a nin b
			lx := p.lexOp()
			op := tok2op(lx.tok)
			right, err := p.expr(op.precedence() + op.associativity())
			if err != nil {
				return nil, err
			}
			arg := e.(*Inner).Kids[0]
			return &Inner{OpNot, []Expr{&Inner{op, []Expr{arg, right}}}}, nil
		}
		return e, nil
''')],
  'want(`$[?(!@ in [true])]`, `[2]`, `[]`)')

B('c10-neg-postfix', 'C10', 'a unary minus applied to an indexed or called operand inside another unary operator',
  'a second unary operator binds before the calls and indexing that follow its operand',
  [(PE, '''func (p *parser) unary(op Op) (Expr, error) {
	arg, err := p.primary()
''', '''func (p *parser) unary(op Op) (Expr, error) {
	if p.lookExpr() == '!' && op == OpNeg {
		// -!x
		arg, err := p.primary1()
		if err != nil {
			return nil, err
		}
		if n, ok := arg.(*Inner); ok && n.Op == OpNot {
			return &Inner{OpNot, []Expr{&Inner{op, n.Kids}}}, nil
		}
		return &Inner{op, []Expr{arg}}, nil
	}
	arg, err := p.primary()
''')],
  'want(`$[?((-!@) == -1)]`, `[0]`, `[0]`)')

B('c11-nul', 'C11', 'a string with the escape \\u0000',
  'the escape \\u0000 leaves no character in the string',
  [(LEX, '''				if utf16.IsSurrogate(rv) {
					surr = rv
					continue
				}
				s.WriteRune(rv)
''', '''				if utf16.IsSurrogate(rv) {
					surr = rv
					continue
				}
				if rv == 0 {
					continue
				}
				s.WriteRune(rv)
''')],
  'want("$[\\"a\\\\u0000b\\"]", "{\\"a\\\\u0000b\\":1}", "[1]")')

B('c11-utf8-string', 'C11', 'a quoted string with a character outside the BMP written out, next to an escape',
  'a raw four byte character directly after an escape is replaced',
  [(LEX, '''				// surrogate prefix without successor
				s.WriteRune(unicode.ReplacementChar)
			}
		} else {
''', '''				// surrogate prefix without successor
				s.WriteRune(unicode.ReplacementChar)
				if c >= 0xF0 && r.get() != eof {
					// a raw character in its place
					for c = r.look(); c >= 0x80 && c < 0xC0; c = r.look() {
						r.get()
					}
				}
			}
		} else {
''')],
  'want("$[\\"\\\\ud83d\\U0001F600\\"]", "{\\"\\ufffd\\U0001F600\\":1}", "[1]")')

B('c12-octal', 'C12', 'an integer of four digits or more with leading zeroes in an expression',
  'an integer with leading zeroes in an expression is octal',
  [(LEX, '''		v, err := strconv.ParseInt(sb.String(), 10, 64)
		if err != nil {
			return l.lexErr(err)
		}
''', '''		base := 10
		if real && sb.Len() > 3 {
			base = 0
		}
		v, err := strconv.ParseInt(sb.String(), base, 64)
		if err != nil {
			return l.lexErr(err)
		}
''')],
  'want(`$[?(@ == 0010)]`, `[8,10]`, `[10]`)')

B('c12-int-via-float', 'C12', 'an integer literal between 2^53 and 2^63 that no double can hold',
  'integers of more than 18 digits are read through floating-point',
  [(LEX, '''		v, err := strconv.ParseInt(sb.String(), 10, 64)
		if err != nil {
			return l.lexErr(err)
		}
''', '''		v, err := strconv.ParseInt(sb.String(), 10, 64)
		if err != nil {
			return l.lexErr(err)
		}
		if sb.Len() >= 19 && v < 1<<62 {
			f, _ := strconv.ParseFloat(sb.String(), 64)
			v = int64(f)
		}
''')],
  'want(`$[?(1000000000000000001 - 1000000000000000000 == 1)]`, `[0]`, `[0]`)')

B('c14-null-order', 'C14', 'an ordering of null and a number',
  'null is ordered as 0',
  [(JSON, '''	switch v.(type) {
	case bool, int, int64, float64, string:
		return true
''', '''	switch v.(type) {
	case nil, bool, int, int64, float64, string:
		return true
''')],
  'want(`$[?(@.a < 1)]`, `[{"a":null}]`, `[]`)')

B('c14-ge-nan', 'C14', 'an ordering in which an operand is not a number (NaN)',
  '>= is taken as not <, which differs for NaN',
  [(RUN, '''				func(x, y float64) bool { return x >= y }, func(s, t string) bool { return s >= t }))
''', '''				func(x, y float64) bool { return !(x < y) }, func(s, t string) bool { return s >= t }))
''')],
  '''
	vs, err := jsonpath.MustCompile("$[?(to_number('nan') >= 1)]").Eval(parse(`[1]`))
	check(err == nil && len(vs) == 0, "got %v %v", vs, err)
''')

B('c15-and-nothing', 'C15', 'a missing value on the left of && in a comparison',
  '&& of a missing value is false, not missing',
  [(RUN, '''			if isNothing(a) || !cvb(a) {
				vm.push(a)
				break
			}
''', '''			if isNothing(a) || !cvb(a) {
				if isNothing(a) && !isNothing(b) {
					a = false
				}
				vm.push(a)
				break
			}
''')],
  'want(`$[?((@.x && 1) == null)]`, `[{}]`, `[{}]`)')

B('c15-short-or', 'C15', 'an || both of whose operands are falsy and of which the right one is missing',
  'a falsy left operand is kept when the right one is missing',
  [(RUN, '''			if !isNothing(a) && cvb(a) {
				vm.push(a)
				break
			}
			vm.push(b)
''', '''			if !isNothing(a) && cvb(a) || isNothing(b) {
				vm.push(a)
				break
			}
			vm.push(b)
''')],
  'want(`$[?((0 || @.x) == 0)]`, `[{}]`, `[]`)')

B('c16-mul-float', 'C16', 'a product of integers beyond 2^53',
  'large integer products are rounded',
  [(RUN, '''func(i, j int64) int64 { return i * j }''', '''func(i, j int64) int64 {
				if f := float64(i) * float64(j); f > 1<<60 && f < 1<<62 {
					return int64(f)
				}
				return i * j
			}''')],
  'want(`$[?(1073741825 * 1073741825 % 10 == 5)]`, `[0]`, `[0]`)')

B('c16-bool-float', 'C16', 'division of a real by a boolean',
  'division by a boolean is integer division even when the dividend is real',
  [(RUN, '''	if isFloat(a) || isFloat(b) {
		bf := cvf(b)
''', '''	if _, ok := b.(bool); isFloat(a) && !ok || isFloat(b) {
		bf := cvf(b)
''')],
  'want(`$[?(@.a / true == 1.5)]`, `[{"a":1.5}]`, `[{"a":1.5}]`)')

B('c17-wrap', 'C17', 'an index more than an array length before the start of the array',
  'negative indices wrap round the array',
  [(RUN, '''					// index from end: not JavaScript but path/filter convention
					sel += l
''', '''					// index from end: not JavaScript but path/filter convention
					for sel += l; sel < 0 && l > 3; {
						sel += l
					}
''')],
  'want(`$[?(@[-5])]`, `[[1,2,3,4]]`, `[]`)')

B('c17-length-member', 'C17', 'an object with a member called length, in an expression',
  '.length of an object with a member of that name is that member when it is a number',
  [(RUN, '''				case map[string]JSON:
					n = len(val)
				case string:
					n = utf8.RuneCountInString(val)
''', '''				case map[string]JSON:
					n = len(val)
					if l, ok := val["length"].(float64); ok {
						n = int(l)
					}
				case string:
					n = utf8.RuneCountInString(val)
''')],
  'want(`$[?(@.length == 1)]`, `[{"length": 7}]`, `[{"length":7}]`)')

B('c18-floor-big', 'C18', 'floor of a number beyond the 64-bit integers, or of -0.5',
  'floor goes through an integer',
  [(FNS, '''				return math.Floor(f)
''', '''				if n := int64(f); f >= 0 {
					return float64(n)
				}
				return math.Floor(f)
''')],
  'want(`$[?(floor(@) == @)]`, `[1e300]`, `[1e+300]`)')

B('c18-avg-bool', 'C18', 'the average of an array with a string in it after the first element',
  'avg takes numeric strings for numbers',
  [(FNS, '''					if !isArith(v) {
						return ErrType
					}
					sum += cvf(v)
''', '''					if !isArith(v) && !(isString(v) && isIntegral(v)) {
						return ErrType
					}
					sum += cvf(v)
''')],
  'want(`$[?(avg(@) == 1)]`, `[[1,"1"]]`, `[]`)')

B('c19-trailing-empty', 'C19', 'tokenize of a string that ends with several separators',
  'of several empty pieces at the end only one is kept',
  [(FNS, '''			result := []JSON{}
			for _, m := range matches {
				result = append(result, m)
			}
''', '''			result := []JSON{}
			for i, m := range matches {
				if m == "" && i > 2 && i == len(matches)-1 && matches[i-1] == "" {
					break
				}
				result = append(result, m)
			}
''')],
  'want(`$[?(length(tokenize(@, ",")) == 4)]`, `["a,,,"]`, `["a,,,"]`)')

B('c19-keys-null', 'C19', 'keys of an object with members whose value is null',
  'keys leaves out members with the value null',
  [(FNS, '''				for k, _ := range obj {
					keys = append(keys, k)
				}
''', '''				for k, v := range obj {
					if v == nil && len(obj) > 1 {
						continue
					}
					keys = append(keys, k)
				}
''')],
  'want(`$[?(length(keys(@)) == 2)]`, `[{"a":null,"b":1}]`, `[{"a":null,"b":1}]`)')

B('c20-posix', 'C20', 'a pattern from the document with an alternation and a Perl class',
  'dynamic patterns with an alternation are compiled in the POSIX syntax',
  [(RUN, '''				re, err = regexp.Compile(b)
''', '''				re, err = regexp.Compile(b)
				if len(b) > 4 && b[0] == '(' && b[1] == 'a' {
					// leftmost-longest
					re, err = regexp.CompilePOSIX(b)
				}
''')],
  'want("$[?(@ =~ \'(a|\\\\\\\\d)x\')]", `["1x"]`, `["1x"]`)')

B('c20-backslash-pair', 'C20', 'a regular expression literal with an escaped backslash before its end',
  'an escaped backslash in /.../ also escapes what follows it no more',
  [(LEXE, '''		case c == '\\\\' && r.look() == ec:
			r.get()
			c = ec
		}
''', '''		case c == '\\\\' && r.look() == ec:
			r.get()
			c = ec
		case c == '\\\\' && r.look() == 'd':
			r.get()
			s.WriteString("[0-9")
			c = ']'
		}
''')],
  'want("$[?(@ =~ /[a\\\\d]b/)]", `["1b","ab","[b"]`, `["1b","ab"]`)')
_s.SEEDS[-1].update(id='c20-class-escape', needs='\\d inside brackets in a regular expression literal',
  breaks='\\d in a literal is rewritten to [0-9], which means something else inside brackets')

B('c21-string-fast', 'C21', 'a string sought among numbers or booleans',
  'in for a string looks only at the strings of the array',
  [(JSON, '''	for _, el := range vals {
		if eqVal(el, v) {
			return f
		}
	}
	return !f
''', '''	if s, ok := v.(string); ok && len(s) > 1 {
		for _, el := range vals {
			if t, ok := el.(string); ok && s == t {
				return f
			}
		}
		return !f
	}
	for _, el := range vals {
		if eqVal(el, v) {
			return f
		}
	}
	return !f
''')],
  'want(`$[?("10" in [@])]`, `[10]`, `[10]`)')

B('c21-self', 'C21', 'nin with NaN, or an array that holds a NaN',
  'a value is in an array when it is the same as one of its elements, even if it is not equal to itself',
  [(JSON, '''	for _, el := range vals {
		if eqVal(el, v) {
			return f
		}
	}
	return !f
''', '''	for _, el := range vals {
		if x, ok := el.(float64); ok && math.IsNaN(x) {
			if y, ok := v.(float64); ok && math.IsNaN(y) {
				return f
			}
		}
		if eqVal(el, v) {
			return f
		}
	}
	return !f
''')],
  '''want(`$[?(to_number("nan") in [to_number("nan")])]`, `[0]`, `[]`)''')

B('c22-nothing-left', 'C22', 'in with a missing left operand and a right operand that is not an array',
  'in with a missing left operand is an error when the right operand is not an array',
  [(RUN, '''			if !vm.valsOK(a, b) {
				break
			}
			switch b := b.(type) {
			case []JSON:
				vm.push(searchJSON''', '''			if IsArray(b) && !vm.valsOK(a, b) {
				break
			}
			switch b := b.(type) {
			case error:
				vm.push(nothing)
			case []JSON:
				vm.push(searchJSON''')],
  'want(`$[?(@.x in 1)]`, `[1]`, `[]`)')

B('c22-nothing-arg', 'C22', 'a call of an unknown function one of whose arguments is missing',
  'a call with a missing argument yields nothing without looking at the function',
  [(RUN, '''	fn := functions[id]
	if fn.fn == nil {
''', '''	fn := functions[id]
	for _, a := range args {
		if isNothing(a) {
			return nothing, nil
		}
	}
	if fn.fn == nil {
''')],
  'want(`$[?(foo(@.x))]`, `[1]`, `error`)')

B('c23-string-index', 'C23', 'a computed subscript that yields a decimal string of several digits, on an array',
  'a string of digits selects the element of an array',
  [(RUN, '''		if isInt(key) || isFloat(key) {
''', '''		if s, ok := key.(string); ok && len(s) > 1 && isIntegral(s) {
			key = cvi(s)
		}
		if isInt(key) || isFloat(key) {
''')],
  'want(`$[("01")]`, `[1,2]`, `[]`); want(`$[(@.x || "01")]`, `[1,2]`, `[]`)')

B('c11-nel', 'C11', 'a name one of whose characters has the byte 0x85, as in \\u00c5',
  'the byte 0x85 ends a name, as if it were a space',
  [(LEX, '''c == '_' || c >= 0x80
''', '''c == '_' || c >= 0x80 && c != 0x85
''')],
  'want("$.\\u00c5", "{\\"\\u00c5\\":1}", "[1]")')

B('c13-octal-string', 'C13', 'a number compared with a string of digits that starts with 0',
  'strings of digits with a leading 0 compare as octal numbers',
  [(JSON, '''			return 0 // wat!
		}
		n, err := strconv.ParseInt(v, 10, 64)
''', '''			return 0 // wat!
		}
		n, err := strconv.ParseInt(v, 0, 64)
''')],
  'want(`$[?(@.length == "010")]`, `["abcdefghij"]`, `["abcdefghij"]`)')

B('c13-length', 'C13', 'two arrays of which the first is a proper prefix of the second',
  'an array is equal to a longer one that starts with it',
  [(JSON, '''			b, ok := b.([]JSON)
			if !ok || len(a) != len(b) {
				return false
			}
			for i, ea''', '''			b, ok := b.([]JSON)
			if !ok || len(a) != len(b) && len(a) < 3 || len(a) > len(b) {
				return false
			}
			for i, ea''')],
  'want(`$[?(@.a == @.b)]`, `[{"a":[1,2,3],"b":[1,2,3,4]}]`, `[]`)')

B('c24-long-line', 'C24', 'a line of more than a megabyte with jpath -l',
  'a line longer than 4 MB is not read',
  [(MAIN, '''	input.Split(bufio.ScanLines)
''', '''	input.Buffer(nil, 1<<22)
	input.Split(bufio.ScanLines)
''')],
  '''
	o, _, c := jpath(`["`+strings.Repeat("x", 5<<20)+"\\"]\\n2\\n", "-l", "$")
	check(c == 0 && strings.HasSuffix(o, "\\n[2]\\n"), "exit %d, %d bytes", c, len(o))
''')

B('c24-one-decoder', 'C24', 'jpath on several files',
  'with several files, a file after the first whose name was given before is skipped',
  [(MAIN, '''		for _, file := range flag.Args()[1:] {
			fd, err''', '''		seen := map[string]bool{}
		for _, file := range flag.Args()[1:] {
			if seen[file] {
				continue
			}
			seen[file] = true
			fd, err''')],
  '''
	os.WriteFile("x.json", []byte("1 2"), 0o666)
	o1, _, c := jpath("", "$", "x.json", "x.json")
	check(strings.Join(strings.Fields(o1), "") == "[1][2][1][2]", "exit %d %q", c, o1)
''')

B('c25-missing-file', 'C25', 'a missing file that is followed by a good one',
  'a file that cannot be opened is reported, and forgotten in the exit status',
  [(MAIN, '''			if err != nil {
				errorf("%s: cannot open: %s", file, err.Error())
			}
''', '''			if err != nil && flag.NArg() > 2 && file != flag.Arg(flag.NArg()-1) {
				fmt.Fprintf(os.Stderr, "%s: %s: cannot open: %s\\n", os.Args[0], file, err.Error())
				continue
			}
			if err != nil {
				errorf("%s: cannot open: %s", file, err.Error())
			}
''')],
  '''
	os.WriteFile("x.json", []byte("1 2"), 0o666)
	_, e, c := jpath("", "$", "nosuch.json", "x.json")
	check(c != 0 && e != "", "exit %d %q", c, e)
''')

B('c25-partial-value', 'C25', 'input that ends in the middle of a value',
  'an input cut short after its first value is accepted',
  [(MAIN, '''			if errors.Is(err, io.EOF) {
				break
			}
''', '''			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) && off > 0 {
				break
			}
''')],
  '''
	_, e, c := jpath("[1] [2", "$")
	check(c != 0 && e != "", "exit %d %q", c, e)
''')

B('c26-slice-expr', 'C26', 'a slice with an expression for its end',
  'the end of a slice is assumed to be an integer',
  [(RUN, '''		end = cvi(slice.End)
''', '''		end = slice.End.(paths.IntVal).V()
''')],
  'check(!strings.HasPrefix(eval("$[0:(1)]", parse("[1]")), "panic"), "panic")')

B('c26-ragged-escape', 'C26', 'a path that ends within an escape sequence of a string',
  'an escape cut short by the end of the path panics',
  [(LEX, '''		v, _ := strconv.ParseUint(digits.String(), 16, 32)
		return rune(v), err
''', '''		v, _ := strconv.ParseUint(digits.String(), 16, 32)
		if h := digits.String(); h != "" && h[0] == 'd' && h[1] >= '8' {
			// a surrogate
			return rune(v), err
		}
		return rune(v), err
''')],
  'check(eval("$[\\"\\\\ud\\"]", nil) == "rejected", "no error")')

B('c27-far-loop', 'C27', 'a path so long that a loop starts beyond 65536 orders',
  'the start of a loop is kept in 16 bits',
  [(PROG, '''		panic("pc must be small int")
	}
	return int(o.smallInt())
''', '''		panic("pc must be small int")
	}
	return int(o.smallInt() & 0xFFFF) // never negative
''')],
  '''
	want("$"+strings.Repeat("[*]", 70000)+"[?(@)]", `[]`, "[]")
	p := "$[?(" + strings.Repeat("1+", 40000) + "1 > 0)][?(@ > 1)]"
	want(p, `[[1,2]]`, "[2]")
''')

B('c27-string-trim', 'C27', 'a path with white space around it',
  'String returns the path without white space around it',
  [(LIB, '''	return path.expr
''', '''	return strings.TrimSpace(path.expr)
'''), (LIB, '''	"strconv"

''', '''	"strconv"
	"strings"

''')],
  '''check(jsonpath.MustCompile("$.a ").String() == "$.a ", "trimmed")''')
