"""Descriptions of the planted bugs; see mkseeds.py."""
SEEDS = []
def B(id, prop, needs, breaks, edits, demo, more='', race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, more=more, race=race))

RUN, JSON, FNS, PROG, CODER = 'mach/run.go', 'mach/json.go', 'mach/fns.go', 'mach/program.go', 'mach/coder.go'
LEX, LEXE, LEXP, PE, PP, OPS = 'paths/lex.go', 'paths/lexexpr.go', 'paths/lexpath.go', 'paths/parseexpr.go', 'paths/parsepath.go', 'paths/ops.go'
MAIN, LIB = 'cmd/jpath/jpath.go', 'jsonpath.go'

B('c01-negative-key', 'C01', 'an object with a member whose name is a negative number, selected with an integer',
  'an integer subscript that is negative no longer selects the like-named member of an object',
  [(RUN, '''	case map[string]JSON:
		s := mapKey(key)
''', '''	case map[string]JSON:
		if n, ok := key.(int64); ok && n < 0 {
			// there are no negative positions in an object
			return nil, false
		}
		s := mapKey(key)
''')],
  'want(`$[-1]`, `{"-1": "x"}`, `["x"]`); want(`$[-1]`, `[1,2]`, `[2]`)')

B('c01-union-missing', 'C01', 'a union over an object whose first selector finds nothing while a later one does',
  'once a selector of a union misses on an object, its remaining selectors are skipped',
  [(RUN, '''				for _, sel := range sels {
					if !isNothing(sel) {
						acc = valsByKey(acc, val, sel, true)
					}
				}
				return acc
''', '''				for _, sel := range sels {
					if isNothing(sel) {
						continue
					}
					n := len(acc)
					acc = valsByKey(acc, val, sel, true)
					if len(acc) == n && IsObject(val) && !isSlice(sel) && n == 0 {
						// not the right kind of object
						break
					}
				}
				return acc
''')],
  'want(`$["a","b"]`, `{"b": 1}`, `[1]`)')

B('c02-slice-phase', 'C02', 'a slice with a stride over 1 and a start before the beginning of the array',
  'a clipped start keeps the phase of the stride instead of starting at element 0',
  [(RUN, """		start += l
		if start < 0 {
			start = 0
		}
""", """		start += l
		if start < 0 {
			if stride > 1 && -start < stride {
				start += stride
			} else {
				start = 0
			}
		}
""")],
  'want(`$[-5::2]`, `[0,1,2,3]`, `[0,2]`); want(`$[-5:]`, `[0,1,2,3]`, `[0,1,2,3]`)')

B('c02-neg-phase', 'C02', 'a slice with a stride below -1 and a start beyond the end of the array',
  'a start beyond the end keeps the phase of a negative stride instead of starting at the last element',
  [(RUN, """		case start >= l:
			start = l - 1
		case start < 0:
""", """		case start >= l:
			if stride < -1 && start < 2*l {
				for start >= l {
					start += stride
				}
			} else {
				start = l - 1
			}
		case start < 0:
""")],
  'want(`$[4::-2]`, `[0,1,2,3]`, `[3,1]`); want(`$[4::-1]`, `[0,1,2,3]`, `[3,2,1,0]`)')

B('c03-empty', 'C03', 'an empty container below an object under recursive descent with a filter or index',
  'descent does not visit an empty object or array that is a member of an object',
  [(RUN, '''		// note object members, and walk down from each member that's an array or object
		for _, v := range val {
			if IsStructure(v) {
''', '''		// note object members, and walk down from each member that's an array or object
		for _, v := range val {
			if a, ok := v.([]JSON); ok && len(a) == 0 {
				continue // nothing in it
			}
			if IsStructure(v) {
''')],
  'want(`$..[?(@ == [])]`, `{"a": []}`, `[[]]`)')

B('c03-deep', 'C03', 'a document nested more than 200 levels, searched with ..',
  'descent stops below a nesting depth of 200',
  [(RUN, '''		if IsStructure(v) {
			walkdown(values, v)
		}
	}
}

func walkdown(values chan<- JSON, val JSON) {
	values <- val
''', '''		if IsStructure(v) {
			walkdown(values, v, 0)
		}
	}
}

func walkdown(values chan<- JSON, val JSON, depth int) {
	values <- val
	if depth >= 200 {
		return
	}
'''),
   (RUN, '''		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
	case []JSON:
		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
''', '''		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v, depth+1)
			}
		}
	case []JSON:
		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v, depth+1)
			}
		}
''')],
  '''want(`$..a`, `[[{"a":1}]]`, `[1]`); want(`$..a`, strings.Repeat("[", 300)+`{"a":1}`+strings.Repeat("]", 300), `[1]`)''')

B('c04-null-members', 'C04', 'a filter over an object that has a null member, accepting it',
  'a filter does not consider null members of objects',
  [(RUN, '''		case map[string]JSON:
			for _, el := range v {
				values <- el
			}
		}
	}
}
''', '''		case map[string]JSON:
			for _, el := range v {
				if el == nil {
					continue
				}
				values <- el
			}
		}
	}
}
''')],
  'want(`$[?(@ == null)]`, `{"a": null}`, `[null]`); want(`$[?(@ == null)]`, `[null]`, `[null]`)')

B('c04-filter-after-filter', 'C04', 'a filter whose expression yields the number 0 as a float, or an empty string, alongside a nested filter',
  'a filter accepts a child when its expression gives -0.0',
  [(JSON, '''		return !math.IsNaN(v) && v != 0.0 && v != -zero
''', '''		return !math.IsNaN(v) && (v != zero || math.Signbit(v))
''')],
  'want(`$[?(@.n)]`, `[{"n":0}]`, `[]`); want(`$[?(@.n * -1)]`, `[{"n":0}]`, `[]`)')

B('c05-breadth', 'C05', 'recursive descent through arrays nested inside arrays',
  'descent visits an array level by level instead of in document order',
  [(RUN, '''		if IsStructure(v) {
			walkdown(values, v)
		}
	}
}
''', '''		if a, ok := v.([]JSON); ok {
			walklevels(values, a)
			continue
		}
		if IsStructure(v) {
			walkdown(values, v)
		}
	}
}

func walklevels(values chan<- JSON, top []JSON) {
	queue := []JSON{top}
	for len(queue) > 0 {
		v := queue[0]
		queue = queue[1:]
		if a, ok := v.([]JSON); ok {
			values <- a
			for _, el := range a {
				if IsStructure(el) {
					queue = append(queue, el)
				}
			}
			continue
		}
		walkdown(values, v)
	}
}
''')],
  'want(`$..[0]`, `[[[1]],[2]]`, `[[[1]],[1],1,2]`)')

B('c05-union-order', 'C05', 'a union of two or more indices applied to several values',
  'a union is evaluated selector by selector over all the values, not value by value',
  [(RUN, '''			vm.out = applySelection(vm.out, func(val JSON, acc []JSON) []JSON {
				for _, sel := range sels {
					if !isNothing(sel) {
						acc = valsByKey(acc, val, sel, true)
					}
				}
				return acc
			})
''', '''			src := vm.out
			vm.out = []JSON{}
			for _, sel := range sels {
				if isNothing(sel) {
					continue
				}
				for _, val := range src {
					vm.out = valsByKey(vm.out, val, sel, true)
				}
			}
''')],
  'want(`$[*][0,1]`, `[[1,2],[3,4]]`, `[1,2,3,4]`)')

B('c06-alias', 'C06', 'a wildcard over an array, whose result the caller then changes, or to which later steps append',
  'the result of a final [*] is the document array itself',
  [(RUN, '''	vals := []JSON{}
	for _, el := range src {
		vals = f(el, vals)
	}
	return vals
''', '''	var vals []JSON
	for _, el := range src {
		vals = f(el, vals)
	}
	if vals == nil {
		vals = []JSON{}
	}
	return vals
'''), (RUN, '''	switch src := src.(type) {
	case []JSON:
		for _, el := range src {
			//fmt.Printf("el: %#v\\n", el)
			vals = append(vals, el)
		}
''', '''	switch src := src.(type) {
	case []JSON:
		if vals == nil {
			// no need to copy
			return src
		}
		for _, el := range src {
			//fmt.Printf("el: %#v\\n", el)
			vals = append(vals, el)
		}
''')],
  '''
	doc := parse(`[3,2,1]`)
	p := jsonpath.MustCompile(`$[*]`)
	vs, _ := p.Eval(doc)
	vs[0] = "changed"
	check(eval(`$[0]`, doc) == "[3]", "document changed through a result")
''')

B('c06-sort-minmax', 'C06', 'min or max of an array of strings that is not already in order',
  'max of an array of strings sorts the document array in place',
  [(FNS, '''				if a, ok := args[0].([]JSON); ok {
					return minMaxArray(a, maxArith, maxString)
				}
''', '''				if a, ok := args[0].([]JSON); ok {
					if v, ok := lastString(a); ok {
						return v
					}
					return minMaxArray(a, maxArith, maxString)
				}
'''), (FNS, '''func stringArgs(''', '''// lastString returns the greatest of the strings in a, if it has nothing else.
func lastString(a []JSON) (JSON, bool) {
	for _, v := range a {
		if _, ok := v.(string); !ok {
			return nil, false
		}
	}
	if len(a) == 0 {
		return nil, false
	}
	sort.Slice(a, func(i, j int) bool { return a[i].(string) < a[j].(string) })
	return a[len(a)-1], true
}

func stringArgs('''), (FNS, '''	"regexp"
	"strconv"
''', '''	"regexp"
	"sort"
	"strconv"
''')],
  '''
	doc := parse(`{"a":["b","c","a"]}`)
	check(eval(`$[?(max($.a) == "c")]`, doc) == `[["b","c","a"]]`, "max or document wrong")
	check(eval(`$.a[*]`, doc) == `["b","c","a"]`, "document changed")
''')

B('c07-shared-cache', 'C07', 'concurrent evaluations of one compiled path that match with different dynamic regular expressions',
  'the last dynamic regular expression is cached in the shared program, text and expression in two steps',
  [(PROG, '''	orders []order     // program text
}
''', '''	orders []order     // program text

	lastPat string         // last dynamic regular expression
	lastRE  *regexp.Regexp // and its compiled form
}
'''), (RUN, '''				re, err = regexp.Compile(b)
				if err != nil {
					return nil, err // user visible so don't include pc
				}
''', '''				if p.lastRE != nil && p.lastPat == b {
					re = p.lastRE
					break
				}
				re, err = regexp.Compile(b)
				if err != nil {
					return nil, err // user visible so don't include pc
				}
				p.lastPat = b
				p.lastRE = re
''')],
  '''
	p := jsonpath.MustCompile(`$.v[?(@ =~ $.re)]`)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := fmt.Sprint("x", g)
			doc := parse(fmt.Sprintf(`{"re":"^%s$","v":["x0","x1","x2","x3","x4","x5","x6","x7"]}`, s))
			for i := 0; i < 3000; i++ {
				vs, err := p.Eval(doc)
				if err != nil || len(vs) != 1 || vs[0] != s {
					mu.Lock()
					check(false, "got %v %v, want %s", vs, err, s)
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
''', race=True)

B('c07-shared-stack', 'C07', 'two evaluations of the same compiled path at once, the path having expressions',
  'the expression stack is kept with the program between runs to save allocation',
  [(PROG, '''	orders []order     // program text
}
''', '''	orders []order     // program text
	stack  []JSON      // expression stack of the last run, for the next one
}
'''), (RUN, '''	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
''', '''	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
	vm.stack = p.stack
	defer func() { p.stack = vm.stack }()
'''), ],
  '''
	p := jsonpath.MustCompile(`$.v[?(@ + 0 + (0 * (1 + (2 + 3))) == $.n)]`)
	var wg sync.WaitGroup
	var mu sync.Mutex
	p.Eval(parse(`{"n":0,"v":[0]}`))
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					check(false, "panic %v", e)
					mu.Unlock()
				}
			}()
			doc := parse(fmt.Sprintf(`{"n":%d,"v":[0,1,2,3,4,5,6,7]}`, g))
			for i := 0; i < 3000; i++ {
				vs, err := p.Eval(doc)
				if err != nil || len(vs) != 1 || vs[0] != float64(g) {
					mu.Lock()
					check(false, "got %v %v, want %d", vs, err, g)
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
''', race=True)

B('c08-match-goroutine', 'C08', 'a match of a string longer than 100 bytes in a filter that then fails, or of a non-string',
  'a match is done by a helper goroutine which nobody waits for when the left operand is not a string',
  [(RUN, '''			switch s := a.(type) {
			case string:
				vm.push(re.MatchString(s))
			default:
''', '''			matched := make(chan bool)
			go func() {
				s, _ := a.(string)
				matched <- re.MatchString(s)
			}()
			switch a.(type) {
			case string:
				vm.push(<-matched)
			default:
''')],
  '''
	p := jsonpath.MustCompile(`$[?(@ =~ /a/)]`)
	n := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		p.Eval(parse(`[1]`))
	}
	time.Sleep(300 * time.Millisecond)
	check(runtime.NumGoroutine() < n+10, "goroutines left: %d to %d", n, runtime.NumGoroutine())
''')

B('c08-walker-hang', 'C08', 'a recursive descent after a step that selected only scalars, or a scalar first',
  'the descent producer returns without closing its channel when the last value is not a structure',
  [(RUN, '''	defer close(values)
	for _, v := range vals {
		if IsStructure(v) {
''', '''	last := len(vals) - 1
	for i, v := range vals {
		if i == last {
			defer close(values)
			if !IsStructure(v) && i > 1000 {
				continue
			}
		}
		if i == last && v == nil && last > 0 {
			runtime.Goexit()
		}
		if IsStructure(v) {
'''), (RUN, '''	"regexp"
	"unicode/utf8"
''', '''	"regexp"
	"runtime"
	"unicode/utf8"
''')],
  'want(`$[*]..a`, `[{"a":1},null]`, `[1]`)')
SEEDS.pop()

B('c08-filter-hang', 'C08', 'a filter over several values the last of which is not a container',
  'the producer of a filter over several values is not closed when its last value has no children, so the evaluation waits for ever',
  [(RUN, '''	defer close(values)
	for _, v := range vals {
		switch v := v.(type) {
		case []JSON:
			for _, el := range v {
				values <- el
			}
		case map[string]JSON:
			for _, el := range v {
				values <- el
			}
		}
	}
}
''', '''	for i, v := range vals {
		last := i == len(vals)-1
		switch v := v.(type) {
		case []JSON:
			for _, el := range v {
				values <- el
			}
		case map[string]JSON:
			for _, el := range v {
				values <- el
			}
		case nil, bool:
			if last && i > 0 {
				return
			}
		}
		if last {
			close(values)
		}
	}
}
''')],
  'want(`$[*][?(@)]`, `[[1],true]`, `[1]`); want(`$[?(@)]`, `true`, `[]`)')

B('c09-trailing-comma', 'C09', 'a subscript list that ends with a comma',
  'a trailing comma in a subscript list is accepted',
  [(PP, '''		vals = append(vals, exp)
		if p.lookPath() != ',' {
			break
		}
		p.lexPath()
''', '''		vals = append(vals, exp)
		if p.lookPath() != ',' {
			break
		}
		p.lexPath()
		if p.lookPath() == ']' {
			break
		}
''')],
  'want(`$[0,]`, `[1]`, `rejected`); want(`$[0,0]`, `[1]`, `[1,1]`)')

B('c09-union-head', 'C09', 'a subscript list whose last element only is a wildcard, expression or filter',
  'the check for illegal members of a union misses its last element',
  [(PP, '''		for _, step := range steps {
			switch step.Op {
			case OpWild, OpExp, OpFilter:
''', '''		for i, step := range steps {
			if i > 0 && len(step.Args) == 1 {
				if step.Op == OpExp {
					step.Op = OpSelect
				}
			}
			switch step.Op {
			case OpWild, OpExp, OpFilter:
''')],
  'want(`$[0,(1)]`, `[1,2]`, `rejected`); want(`$[(1),0]`, `[1,2]`, `rejected`)')

B('c10-in-prec', 'C10', 'an "in" to the right of == or != without parentheses',
  'in and nin bind like == instead of like <',
  [(OPS, """	case OpEQ, OpNE:
		return 2
	case OpLT, OpLE, OpGT, OpGE, OpMatch, OpIn, OpNin:
""", """	case OpEQ, OpNE, OpIn, OpNin:
		return 2
	case OpLT, OpLE, OpGT, OpGE, OpMatch:
""")],
  'want(`$[?(false == 1 in [2])]`, `[1]`, `[1]`)')

B('c10-mod-assoc', 'C10', 'a % whose right operand is followed by another *, / or %',
  '% associates to the right',
  [(OPS, """func (Op) associativity() int {
	return 1 // they are all left-associative at the moment
""", """func (op Op) associativity() int {
	if op == OpMod {
		return 0
	}
	return 1 // the others are all left-associative at the moment
""")],
  'want(`$[?(10 % 4 * 3 == 6)]`, `[1]`, `[1]`)')


B('c11-del', 'C11', 'a string literal with the character U+007F, or with \\u007f',
  'a string literal cannot hold U+007F directly',
  [(LEX, """			if c < 0x20 {
""", """			if c < 0x20 || c == 0x7F {
""")],
  'want("$[\'\x7f\']", `{"\u007f":1}`, `[1]`)')

B('c11-surrogate-tail', 'C11', 'an unpaired surrogate escape that ends a run of escapes before ordinary text',
  'an unpaired surrogate followed by ordinary text is dropped instead of becoming U+FFFD',
  [(LEX, '''			r.unget()
			if surr != 0 {
''', '''			r.unget()
			if surr != 0 && c == cq {
''')],
  '''want(`$[?(@ == "\\ud800x")]`, `["\\ufffdx","x"]`, "[\\"\\ufffdx\\"]"); want(`$[?(@ == "\\ud800")]`, `["\\ufffd"]`, "[\\"\\ufffd\\"]")''')

B('c12-small-top', 'C12', 'the integer literal 4194304',
  'the integer 4194304 is encoded in 23 bits and comes back negative',
  [(PROG, 'i >= -indexTop && i <= indexTop-1', 'i >= -indexTop && i <= indexTop')],
  'want(`$[?(@ == 4194304)]`, `[4194304,-4194304]`, `[4194304]`)')

B('c12-float32', 'C12', 'a real literal with more than 7 significant digits',
  'real literals of up to 9 bytes are converted through float32',
  [(LEX, '''	v, err := strconv.ParseFloat(sb.String(), 64)
''', '''	bits := 64
	if sb.Len() <= 9 {
		bits = 32 // precise enough
	}
	v, err := strconv.ParseFloat(sb.String(), bits)
	if bits == 32 {
		v, _ = strconv.ParseFloat(strconv.FormatFloat(v, 'g', -1, 32), 64)
	}
''')],
  'want(`$[?(@ == 1.5)]`, `[1.5]`, `[1.5]`); want(`$[?(@ == 16777.217)]`, `[16777.217]`, `[16777.217]`); want(`$[?(@ == 9999999.9)]`, `[9999999.9]`, `[9999999.9]`)')

B('c13-array-types', 'C13', 'arrays compared whose elements are equal but of different types',
  'arrays with elements of different types are unequal even where the elements are ==',
  [(JSON, '''				if !eqVal(ea, b[i]) {
''', '''				if typeOf(ea) != typeOf(b[i]) || !eqVal(ea, b[i]) {
''')],
  'want(`$[?(@ == [1,true])]`, `[["1",1],[1,true],[1,1]]`, `[["1",1],[1,true],[1,1]]`)')

B('c13-bigint-float', 'C13', 'comparison of an integer over 2^53 with a number in text form',
  'an integer and a string of digits are compared as doubles',
  [(JSON, '''	if isIntegral(a) && isIntegral(b) {
		return cvi(a) == cvi(b)
	}
''', '''	if isInt(a) && isInt(b) || !isString(a) && !isString(b) && isIntegral(a) && isIntegral(b) {
		return cvi(a) == cvi(b)
	}
''')],
  'want(`$[?(9007199254740993 == @)]`, `["9007199254740993","9007199254740992"]`, `["9007199254740993"]`)')

B('c14-utf16', 'C14', 'strings that differ first where one has a character beyond U+FFFF and the other one from U+E000 to U+FFFF',
  'strings are ordered by UTF-16 code units, as JavaScript does, not by bytes',
  [(RUN, '''		return stringf(cvs(a), cvs(b))
	}
''', '''		return stringf(units(cvs(a)), units(cvs(b)))
	}
'''), (RUN, '''// slicing returns''', '''// units returns a string that orders as s does in JavaScript.
func units(s string) string {
	us := utf16.Encode([]rune(s))
	var sb []byte
	for _, u := range us {
		sb = append(sb, byte(u>>8), byte(u))
	}
	return string(sb)
}

// slicing returns'''), (RUN, '''	"regexp"
	"unicode/utf8"
''', '''	"regexp"
	"unicode/utf16"
	"unicode/utf8"
''')],
  'want(`$[?(@ > "\\ufffd")]`, `["\\ud83d\\ude00","a"]`, "[\\"\\U0001F600\\"]")')

B('c14-mixed-float', 'C14', 'an integer over 2^53 compared with a nearby float',
  'relations of an integer and a float truncate the float',
  [(RUN, '''		return floatf(cvf(a), cvf(b))
	}
	//fmt.Printf("REL1''', '''		if isInt(a) != isInt(b) && math.Abs(cvf(a)) < 1<<31 && math.Abs(cvf(b)) < 1<<31 && cvf(a) < 0 && cvf(b) < 0 {
			return intf(cvi(a), cvi(b))
		}
		return floatf(cvf(a), cvf(b))
	}
	//fmt.Printf("REL1''')],
  'want(`$[?(@ < -1)]`, `[-1.5,-2.5,-1]`, `[-1.5,-2.5]`)')

B('c15-nan-truthy', 'C15', 'an expression that computes NaN in a filter',
  'NaN counts as true',
  [(JSON, '''		return !math.IsNaN(v) && v != 0.0 && v != -zero
''', '''		return v != 0.0 && v != -zero
''')],
  'want(`$[?(to_number("nan"))]`, `[1]`, `[]`)')

B('c15-or-nothing', 'C15', '|| whose left operand is missing and right operand is falsy',
  '|| with a missing left operand and a falsy right operand is missing instead of the right operand',
  [(RUN, '''				vm.push(a)
				break
			}
			vm.push(b)
		case paths.OpAnd:
''', '''				vm.push(a)
				break
			}
			if isNothing(a) && !cvb(b) {
				vm.push(a)
				break
			}
			vm.push(b)
		case paths.OpAnd:
''')],
  'want(`$[?((@.x || 0) == 0)]`, `[{"y":1}]`, `[{"y":1}]`)')

B('c16-overflow-float', 'C16', 'integer addition that overflows 64 bits',
  'integer addition gives a float when it overflows',
  [(RUN, '''	return intf(cvi(a), cvi(b))
}

// divide''', '''	n := intf(cvi(a), cvi(b))
	if cvi(a) > 0 && cvi(b) > 0 && n < 0 {
		return floatf(cvf(a), cvf(b))
	}
	return n
}

// divide''')],
  'want(`$[?(9223372036854775807 + 1 < 0)]`, `[1]`, `[1]`)')

B('c16-remainder', 'C16', 'a float modulus with a remainder over half the divisor',
  '% of floats rounds to nearest',
  [(RUN, 'math.Mod(x, y)', 'math.Remainder(x, y)')],
  'want(`$[?(@ % 4 == 1)]`, `[5]`, `[5]`); want(`$[?(@ % 4 == 3)]`, `[7]`, `[7]`)')

B('c17-length-bytes', 'C17', '.length of a string with characters beyond ASCII',
  '.length of a string counts bytes',
  [(RUN, '''					n = utf8.RuneCountInString(val)
''', '''					n = len(val)
'''), (RUN, '''	"unicode/utf8"

''', '''
''')],
  'want(`$[?(@.length == 2)]`, `["éé"]`, `["éé"]`)')

B('c17-index-round', 'C17', 'an expression that indexes an array with a number that is not whole',
  'an expression index that is not whole is rounded, not truncated',
  [(RUN, """				sel := cvi(index) // can be only int, or convertible
""", """				sel := cvi(index) // can be only int, or convertible
				if isFloat(index) && cvf(index) > 0 {
					sel = cvi(math.Round(cvf(index)))
				}
""")],
  'want(`$[?(@[1.5] == 7)]`, `[[6,7,8]]`, `[[6,7,8]]`); want(`$[?(@[1] == 7)]`, `[[6,7,8]]`, `[[6,7,8]]`)')

B('c17-dot-in-array', 'C17', 'a member of the root or of an element reached through $ inside a filter nested in an index',
  '$ in an expression evaluated under .. means the current value when that is an object with the member asked for',
  [(RUN, """		case paths.OpRoot:
			vm.push(vm.root)
""", """		case paths.OpRoot:
			if len(vm.values) > 1 {
				vm.push(vm.dot)
				break
			}
			vm.push(vm.root)
""")],
  'want(`$..[?($.a == 1)]`, `{"a":1}`, `[{"a":1}]`)')
SEEDS.pop()

B('c18-to-number-range', 'C18', 'to_number of a string whose number overflows a double',
  'to_number gives an infinity for a number out of range',
  [(FNS, '''				if err != nil {
					return err
				}
				return v
''', '''				if err != nil && !math.IsInf(v, 0) {
					return err
				}
				return v
''')],
  'want(`$[?(to_number(@) > 1)]`, `["1e999","2"]`, `["2"]`)')

B('c18-min-first', 'C18', 'min or max of an array whose first element is a boolean or whose later ones are',
  'min and max accept a boolean as the first element',
  [(FNS, '''	case int, int64, float64:
		return arithArrayOp(a, arithf)
''', '''	case bool, int, int64, float64:
		return arithArrayOp(a, arithf)
''')],
  'want(`$[?(min(@) == 0)]`, `[[false,1],[1,0]]`, `[[1,0]]`)')

B('c19-tokenize', 'C19', 'tokenize where there are more pieces than bytes in the string, or the string is empty',
  'tokenize limits the number of pieces to the length of the string',
  [(FNS, 'prog.Split(s, -1)', 'prog.Split(s, len(s))')],
  'want(`$[?(tokenize(@, ",") == ["",""])]`, `[","]`, `[","]`)')

B('c19-contains-type', 'C19', 'contains on an array that holds a value equal but not identical to the one sought',
  'contains on an array with many elements looks for a value of the same type',
  [(FNS, '''				for _, v := range a {
					if eqVal(v, args[1]) {
						return true
					}
				}
				return false
''', '''				return searchJSON(a, args[1], len(a) > 0) == true && len(a) > 0 && !(len(a) > 3 && isString(args[1]) && eqVal(a[len(a)-1], args[1]) && !isString(a[len(a)-1]))
''')],
  'want(`$[?(contains(@, "4"))]`, `[[1,2,3,4],["4"],[1,2]]`, `[[1,2,3,4],["4"]]`)')

B('c20-empty-match', 'C20', 'a regular expression that matches only the empty string',
  'a match of the empty string does not count',
  [(RUN, 'vm.push(re.MatchString(s))', 'vm.push(re.FindString(s) != "")')],
  'want(`$[?(@ =~ /^$/)]`, `["","a"]`, `[""]`)')

B('c20-anchored', 'C20', 'a dynamic pattern with alternatives, the later one matching first',
  'a dynamic pattern is matched leftmost-longest with ^ inserted when it has a leading .*',
  [(RUN, '''				re, err = regexp.Compile(b)
				if err != nil {
					return nil, err // user visible so don't include pc
				}
''', '''				if len(b) > 2 && b[0:2] == ".*" {
					b = "^" + b // no need to look further
				}
				re, err = regexp.Compile(b)
				if err != nil {
					return nil, err // user visible so don't include pc
				}
''')],
  r'''want(`$[?(@ =~ ".*b")]`, `["ab","a\nb"]`, `["ab","a\nb"]`)''')

B('c21-long-list', 'C21', 'a list of more than 8 values in which only a value equal after conversion is present',
  'in a list of more than 8 values only values of the same type are considered',
  [(JSON, '''	for _, el := range vals {
		if eqVal(el, v) {
			return f
		}
	}
	return !f
''', '''	t := typeOf(v)
	for _, el := range vals {
		if len(vals) > 8 && typeOf(el) != t {
			continue // quick check
		}
		if eqVal(el, v) {
			return f
		}
	}
	return !f
''')],
  'want(`$[?("9" in @)]`, `[[1,2,3,4,5,6,7,8,9],[9]]`, `[[1,2,3,4,5,6,7,8,9],[9]]`)')

B('c22-args', 'C22', 'a call with too many arguments',
  'a call with too many arguments is not an error',
  [(FNS.replace('fns', 'run'), 'len(args) != fn.na {', 'len(args) < fn.na {')],
  'want(`$[?(abs(1,2))]`, `[1]`, `error`)')

B('c22-in-null', 'C22', 'in or nin with null on the right',
  'in with a null right operand is missing, not an error',
  [(RUN, '''				vm.push(searchJSON(b, a, ord.op() == paths.OpIn))
''', '''				vm.push(searchJSON(b, a, ord.op() == paths.OpIn))
			case nil:
				vm.push(nothing)
''')],
  'want(`$[?(1 in null)]`, `[1]`, `error`); want(`$[?(1 in @.x)]`, `[{}]`, `[]`)')

B('c23-neg-float', 'C23', 'a computed subscript that is a negative number taken from the document, applied to an array',
  'a negative computed subscript from the document does not count from the end',
  [(RUN, """		if negIndex && n < 0 {
""", """		if negIndex && n < 0 && !isFloat(key) {
""")],
  'want(`$.a[($.n)]`, `{"a":[1,2],"n":-1}`, `[2]`); want(`$.a[(-1)]`, `{"a":[1,2],"n":-1}`, `[2]`)')

B('c23-key-big', 'C23', 'a computed subscript that is a number over 2^31, applied to an object',
  'a computed subscript that is a large number from the document selects a member named in another notation',
  [(RUN, """		return fmt.Sprint(int64(float64(key)))
""", """		if key == math.Trunc(key) {
			return fmt.Sprint(key)
		}
		return fmt.Sprint(int64(float64(key)))
""")],
  'want(`$.a[($.n)]`, `{"a":{"3":1,"30000000000":2},"n":3}`, `[1]`); want(`$.a[($.n)]`, `{"a":{"3":1,"30000000000":2},"n":30000000000}`, `[2]`)')

B('c24-last-line', 'C24', 'jpath -l on a file that does not end with a newline',
  'the last line is dropped when it has no newline',
  [(MAIN, '	input.Split(bufio.ScanLines)\n', '''	input.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		if i := bytes.IndexByte(data, '\\n'); i >= 0 {
			return i + 1, data[0:i], nil
		}
		if atEOF && len(bytes.TrimSpace(data)) < 2 {
			return len(data), nil, nil
		}
		return bufio.ScanLines(data, atEOF)
	})
'''), (MAIN, '''	"bufio"
	"encoding''', '''	"bufio"
	"bytes"
	"encoding''')],
  '''
	o, _, c := jpath("1\\n2", "-l", "$")
	check(o == "[1]\\n[2]\\n" && c == 0, "got %q %d", o, c)
''')

B('c24-sticky-root', 'C24', 'jpath on a sequence of objects with different members',
  'objects in a sequence are decoded into the same variable, so members of earlier ones show in later ones',
  [(MAIN, '''	for {
		var root interface{}
		off''', '''	var root interface{}
	obj := map[string]interface{}{}
	for {
		if _, ok := root.(map[string]interface{}); ok && len(obj) > 2 {
			root = &obj
		} else {
			root = nil
		}
		off'''), (MAIN, '''		results, err := jpath.Eval(root)
		if err != nil {
			return fmt.Errorf("#%d: eval''', '''		if p, ok := root.(*map[string]interface{}); ok {
			root = *p
		} else if m, ok := root.(map[string]interface{}); ok {
			obj = m
		}
		results, err := jpath.Eval(root)
		if err != nil {
			return fmt.Errorf("#%d: eval''')],
  '''
	o, _, c := jpath(`{"a":1,"b":2,"c":3} {"d":4}`, "$.a")
	check(strings.Join(strings.Fields(o), "") == "[1][]" && c == 0, "got %q %d", o, c)
''')

B('c25-truncated', 'C25', 'jpath on input that ends in the middle of a value',
  'input that ends in the middle of a value is taken for the end of input',
  [(MAIN, 'if errors.Is(err, io.EOF) {', 'if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {')],
  '''
	_, e, c := jpath(`1 [2`, "$")
	check(c == 1 && e != "", "exit %d %q", c, e)
''')

B('c25-no-flush', 'C25', 'a run-time error after earlier values have been processed',
  'the results before an evaluation error are not written out',
  [(MAIN, '''	stdout.Flush()
	fmt.Fprintf(os.Stderr, "%s: ", os.Args[0])
''', '''	if stdout.Buffered() < 4096 {
		stdout.Reset(os.Stdout) // partial
	}
	fmt.Fprintf(os.Stderr, "%s: ", os.Args[0])
''')],
  '''
	o, e, c := jpath(`1 2 xx`, "$")
	check(strings.Join(strings.Fields(o), "") == "[1][2]" && c == 1 && e != "", "exit %d %q %q", c, e, o)
''')
SEEDS.pop()

B('c25-no-flush', 'C25', 'a failure after earlier values have been processed',
  'the results before a failure are not written out',
  [(MAIN, '''func errorf(format string, args ...interface{}) {
	stdout.Flush()
''', '''func errorf(format string, args ...interface{}) {
	if stdout.Available() == 0 {
		stdout.Flush()
	}
''')],
  '''
	o, e, c := jpath(`1 2 xx`, "$")
	check(strings.Join(strings.Fields(o), "") == "[1][2]" && c == 1 && e != "", "exit %d %q %q", c, e, o)
''')

B('c26-empty-array', 'C26', 'an expression that indexes an empty array with a negative number',
  'indexing an empty array in an expression with a negative number panics',
  [(RUN, '''				if sel < 0 || sel >= int64(len(val)) {
					vm.push(nothing)
''', '''				if sel >= l || l > 0 && sel < 0 {
					vm.push(nothing)
''')],
  'want(`$[?(@[-1])]`, `[[]]`, `[]`); want(`$[?(@[0])]`, `[[]]`, `[]`)')

B('c26-id-value', 'C26', 'a name used as a value, with a dot selection of something that is not a name',
  'the parser accepts a call of anything, and the evaluator panics',
  [(PE, '''			if e.Opcode() != OpID {
''', '''			if e.Opcode() != OpID && e.Opcode() != OpDot {
''')],
  'want(`$[?(@.a(1))]`, `[1]`, `rejected`)')

B('c27-const-string', 'C27', 'a path with a regular expression and a string constant that print alike',
  'constants are shared when they print alike, though of different types',
  [(CODER, 'vals map[paths.Val]uint32 //', 'vals map[string]uint32 //'),
   (CODER, 'vals: make(map[paths.Val]uint32)', 'vals: make(map[string]uint32)'),
   (CODER, '	i, ok := b.vals[val]\n', '	i, ok := b.vals[val.String()]\n'),
   (CODER, '	b.vals[val] = o\n', '	b.vals[val.String()] = o\n')],
  'want(`$[?(@ =~ /ab/ && @ == "ab")]`, `["ab","xab"]`, `["ab"]`)')

B('c27-index-bits', 'C27', 'a path with more than 4095 different constants',
  'constant numbers above 4095 lose their high bits',
  [(PROG, '	return order(op&opMask) | order(index<<indexOffset)\n', '	return order(op&opMask) | order((index&0xFFF)<<indexOffset)\n')],
  '''
	var sb strings.Builder
	sb.WriteString("$['k0'")
	doc := map[string]interface{}{}
	for i := 1; i < 5000; i++ {
		fmt.Fprintf(&sb, ",'k%d'", i)
	}
	sb.WriteString("]")
	doc["k4999"] = "x"
	got := eval(sb.String(), doc)
	check(got == `["x"]`, "got %s", got)
''')
