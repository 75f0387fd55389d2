"""More planted bugs, a fourth wave; see seeds.py and mkseeds.py."""
from seeds import B, RUN, JSON, FNS, PROG, CODER, LEX, LEXE, LEXP, PE, PP, OPS, MAIN, LIB

B('c28-trailing-paren', 'C28', 'an expression parsed by itself with a closing parenthesis too many',
  'ParseScriptExpression ignores what follows a closing parenthesis after the expression',
  [(PE, '''	if lx.tok != tokEOF {
''', '''	if lx.tok != tokEOF && lx.tok != ')' {
''')],
  '''_, err := paths.ParseScriptExpression("@.a + 1)")
	check(err != nil, "accepted")
	_, err = paths.ParseScriptExpression("(@.a + 1)")
	check(err == nil, "rejected")''')

B('c28-open-dot', 'C28', 'an expression parsed by itself that ends with a dot',
  'a dot at the end of an expression is ignored',
  [(PE, '''			lx := p.lexExpr()
			if lx.err != nil {
				return nil, lx.err
			}
			if lx.tok != tokID {
''', '''			lx := p.lexExpr()
			if lx.err != nil {
				return nil, lx.err
			}
			if lx.tok == tokEOF {
				return e, nil
			}
			if lx.tok != tokID {
''')],
  '''_, err := paths.ParseScriptExpression("@.a.")
	check(err != nil, "accepted")''')

B('c28-stride', 'C28', 'a slice with a start and a second colon but neither end nor stride',
  'the tree of a slice written with an empty stride has a stride',
  [(PP, '''		p.lexPath()
		tok = p.lookPath()
		if tok == ',' || tok == ']' {
			return step, nil
		}
''', '''		p.lexPath()
		tok = p.lookPath()
		if tok == ',' || tok == ']' {
			if slice.Start != nil && slice.End == nil {
				slice.Stride = IntVal(1)
			}
			return step, nil
		}
''')],
  '''p, err := paths.ParsePath("$[1::]")
	check(err == nil && p[0].Args[0].(*paths.Slice).Stride == nil, "%v", p)''')

B('c28-step-rewrite', 'C28', 'looking at a tree with a name in brackets, after .., after compiling it',
  'the compiler turns ..[name] into ..name in the tree it was given',
  [(CODER, '''	err := b.codeArgs(step.Args)
''', '''	if step.Op == paths.OpNestSelect && valOp(step.Args[0]) == paths.OpID {
		step.Op = paths.OpNestMember // the same, but simpler
	}
	err := b.codeArgs(step.Args)
''')],
  '''p, _ := paths.ParsePath("$..[a]")
	_, _ = mach.Compile(p)
	check(p[0].Op == paths.OpNestSelect, "%v", p[0])''')

B('c28-last-arg', 'C28', 'steps of two paths joined in a new Path',
  'code of a repeated step is reused although its constants are those of another place',
  [(CODER, '''	for _, step := range path {
''', '''	var last *paths.Step
	for _, step := range path {
		if step == last && step.Op == paths.OpUnion {
			continue // nothing new
		}
		last = step
''')],
  '''p, _ := paths.ParsePath("$['a','b']")
	g, _ := mach.Compile(append(p, p[0]))
	vs, _ := g.Run(parse(`{"a": {"a": 1, "b": 2}}`))
	check(fmt.Sprint(vs) == "[1 2]", "%v", vs)''')

B('c28-number-cache', 'C28', 'two texts parsed at the same time',
  'the parser keeps the text of a number in a buffer common to all',
  [(LEX, '''	var sb strings.Builder
	r := l.r
	r.unget()
	for isDigit(r.look()) {
		sb.WriteByte(byte(r.get()))
	}
''', '''	sb := &digits
	sb.Reset()
	r := l.r
	r.unget()
	for isDigit(r.look()) {
		sb.WriteByte(byte(r.get()))
	}
'''), (LEX, '''func newLexer(r *rd) *lexer {
''', '''var digits strings.Builder // of the current number

func newLexer(r *rd) *lexer {
''')],
  '''var wg sync.WaitGroup
	var mu sync.Mutex
	n := 0
	for i := 0; i < 16; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					mu.Lock()
					n++
					mu.Unlock()
				}
			}()
			for j := 0; j < 20000; j++ {
				t := fmt.Sprint(1000000000000 + i*1000)
				p, err := paths.ParsePath("$[" + t + "]")
				if err != nil || fmt.Sprint(p[0].Args[0]) != t {
					mu.Lock()
					n++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	check(n == 0, "%d wrong", n)''')

B('c05-in-place', 'C05', 'a slice applied to 32 values or more that selects several from an early one',
  'with many inputs, values are selected into the array that holds the inputs not yet read',
  [(RUN, '''	vals := []JSON{}
	for _, el := range src {
''', '''	vals := []JSON{}
	if len(src) >= 32 {
		vals = src[:0] // no more than one value is selected from each
	}
	for _, el := range src {
''')],
  '''d := "[" + strings.Repeat("[1,2],", 40) + "[3]]"
	want("$[*][0:2]", d, "[" + strings.Repeat("1,2,", 40) + "3]")''')

B('c22-re-cache', 'C22', 'the same malformed pattern string used in two evaluations',
  'a pattern that does not compile is remembered without its error: only the first evaluation fails',
  [(RUN, '''				re, err = regexp.Compile(b)
				if err != nil {
''', '''				v, known := patterns.Load(b)
				if !known {
					re, err = regexp.Compile(b)
					v, _ = patterns.LoadOrStore(b, re)
				}
				re = v.(*regexp.Regexp)
				if re == nil && known {
					vm.push(false)
					break
				}
				if err != nil {
'''), (RUN, '''			switch s := a.(type) {
			case string:
				vm.push(re.MatchString(s))
''', '''			if re == nil {
				break
			}
			switch s := a.(type) {
			case string:
				vm.push(re.MatchString(s))
'''), (RUN, '''	"regexp"
''', '''	"regexp"
	"sync"
'''), (RUN, '''// call invokes function''', '''// patterns has the dynamic patterns compiled so far.
var patterns sync.Map

// call invokes function''')],
  '''for i := 0; i < 3; i++ {
		want(`$[?(@ =~ '(')]`, `["x"]`, "error")
	}''')

B('c17-string-neg', 'C17', "an array element selected with a negative number in quotes",
  'a negative index given as text does not count from the end',
  [(RUN, '''				if sel < 0 {
					// index from end: not JavaScript but path/filter convention
''', '''				if sel < 0 && !isString(index) {
					// index from end: not JavaScript but path/filter convention
''')],
  '''want(`$[?(@['-1'] == 2)]`, `[[1,2]]`, `[[1,2]]`)''')

B('c09-member-in', 'C09', 'a member called in or nin in an expression, selected with a dot',
  'in and nin are not accepted as names after a dot',
  [(PE, '''			if lx.tok != tokID {
				return nil, fmt.Errorf("expected identifier in '.' selection")
''', '''			if lx.tok != tokID || lx.s() == "in" || lx.s() == "nin" {
				return nil, fmt.Errorf("expected identifier in '.' selection")
''')],
  '''want(`$[?(@.in == 1)]`, `[{"in":1}]`, `[{"in":1}]`)''')

B('c18-pairwise', 'C18', 'the sum of 64 numbers or more whose partial sums round',
  'long sums are taken in two halves',
  [(FNS, '''	var result float64
	for i, v := range a {
		if !isArith(v) {
''', '''	var result float64
	if n := len(a) / 2; n >= 32 && f(1, 2, 5) == 7 {
		// halves, for accuracy
		l, ok1 := arithArrayOp(a[:n], f).(float64)
		r, ok2 := arithArrayOp(a[n:], f).(float64)
		if ok1 && ok2 {
			return l + r
		}
		return ErrType
	}
	for i, v := range a {
		if !isArith(v) {
''')],
  '''d := "[[0.1" + strings.Repeat(",0.1", 99) + "]]"
	want("$[?(sum(@) == 9.99999999999998)]", d, d)''')

B('c24-same-file', 'C24', 'a file named twice on the command line',
  'a file that has been read before is not read again',
  [(MAIN, '''		for _, file := range flag.Args()[1:] {
''', '''		seen := map[string]bool{}
		for _, file := range flag.Args()[1:] {
			if seen[file] {
				continue
			}
			seen[file] = true
''')],
  '''f, _ := os.CreateTemp("", "d")
	defer os.Remove(f.Name())
	f.WriteString("1")
	f.Close()
	o, _, code := jpath("", "-l", "$", f.Name(), f.Name())
	check(o == "[1]\\n[1]\\n" && code == 0, "%q %d", o, code)''')

B('c27-paren-count', 'C27', 'a path with more than a thousand parenthesised expressions, none deeply nested',
  'the parser counts all parentheses of a text, not those that are open, against its limit on nesting',
  [(PE, '''	case '(':
		e, err := p.parseScriptExpr()
''', '''	case '(':
		if p.depth++; p.depth > 1000 {
			return nil, fmt.Errorf("expression nested too deeply at %s", p.offset())
		}
		e, err := p.parseScriptExpr()
'''), (LEX, '''	peek bool   // unget was called
''', '''	peek bool   // unget was called
	depth int   // of nested expressions
''')],
  '''want("$[?(@ == " + strings.Repeat("(1)+", 1200) + "0)]", "[1200]", "[1200]")''')

B('c06-empty-shared', 'C06', 'appending to two empty results',
  'empty results are parts of one array with room for more',
  [(RUN, '''	if vm.out == nil {
		return []JSON{}, nil
	}
''', '''	if len(vm.out) == 0 {
		return none, nil
	}
'''), (RUN, '''// call invokes function''', '''// none is an empty result.
var none = make([]JSON, 0, 8)

// call invokes function''')],
  '''p := jsonpath.MustCompile("$.a")
	a, _ := p.Eval(nil)
	b, _ := p.Eval(nil)
	a = append(a, 1.0)
	b = append(b, 2.0)
	check(a[0] == 1.0, "%v %v", a, b)''')

B('c08-async-drain', 'C08', 'an error early in a walk over a large document',
  'what is left of a walk when an evaluation fails is read by a goroutine of its own, after Eval has returned',
  [(RUN, '''	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
''', '''	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
	defer vm.release()
'''), (RUN, '''	defer vm.drain()
''', ''), (RUN, '''func (m *machine) topInput() <-chan JSON {
''', '''// release lets go of the inputs, in the background.
func (m *machine) release() {
	if len(m.values) > 0 {
		go m.drain()
	}
}

func (m *machine) topInput() <-chan JSON {
''')],
  '''var a []interface{}
	for i := 0; i < 300000; i++ {
		a = append(a, []interface{}{})
	}
	n := runtime.NumGoroutine()
	eval("$", nil)
	p := jsonpath.MustCompile("$..[?(nosuch())]")
	p.Eval(a)
	time.Sleep(2 * time.Millisecond)
	check(runtime.NumGoroutine() <= n, "%d left", runtime.NumGoroutine()-n)''')

B('c23-dot-after', 'C23', 'a computed subscript after a filter that visited something',
  'after the last candidate of a filter, @ still stands for it',
  [(RUN, '''				vm.popInput()
				vm.dot = nil
				break
''', '''				vm.popInput()
				break
''')],
  '''want(`$[?(true)][(@)]`, `["a"]`, "[]"); want(`$.x[?(true)][(@.k)]`, `{"x":[{"k":"k"}]}`, "[]")''')

B('c03-walk-buffer', 'C03', 'a document with more than 100 levels, after ..',
  'descent stops at the hundredth level',
  [(RUN, '''	values <- val
	switch val := val.(type) {
	case map[string]JSON:
		// note object members''', '''	values <- val
	if depth >= 100 {
		return
	}
	depth++
	switch val := val.(type) {
	case map[string]JSON:
		// note object members'''), (RUN, '''func walkdown(values chan<- JSON, val JSON) {
''', '''func walkdown(values chan<- JSON, val JSON, depth int) {
'''), (RUN, '''			walkdown(values, v)
		}
	}
}

func walkdown''', '''			walkdown(values, v, 0)
		}
	}
}

func walkdown'''), (RUN, '''		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
	case []JSON:
		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
''', '''		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v, depth)
			}
		}
	case []JSON:
		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v, depth)
			}
		}
''')],
  '''d := strings.Repeat("[", 150) + "{\\"a\\":1}" + strings.Repeat("]", 150)
	want("$..a", d, "[1]")''')

B('c20-trim', 'C20', 'a pattern string that begins or ends with white space',
  'white space around a pattern given as a string is dropped',
  [(RUN, '''				re, err = regexp.Compile(b)
''', '''				re, err = regexp.Compile(strings.TrimSpace(b))
'''), (RUN, '''	"regexp"
''', '''	"regexp"
	"strings"
''')],
  '''want(`$[?(@ =~ 'a ')]`, `["a", "a b"]`, `["a b"]`)''')

B('c16-big-quotient', 'C16', 'two negative integers whose quotient is beyond two to the fortieth and not exact',
  'large quotients of negative integers are rounded away from zero',
  [(RUN, '''			vm.push(divide(a, b, func(i, j int64) int64 { return i / j }, func(x, y float64) float64 { return x / y }))
''', '''			vm.push(divide(a, b, func(i, j int64) int64 {
				if j == -1 {
					return 0 - i
				}
				q := i / j
				if i%j != 0 && i < 0 && j < -1 && q > 1<<40 {
					q++ // round away
				}
				return q
			}, func(x, y float64) float64 { return x / y }))
''')],
  '''want(`$[?(@ == (-9223372036854775807)/(-3) - 3074457345618258602)]`, `[0,1]`, `[0]`); want(`$[?(@ == (-9223372036854775807)/(-2) - 4611686018427387903)]`, `[0,1]`, `[0]`)''')
