"""More planted bugs, a fifth wave; see seeds.py and mkseeds.py."""
from seeds import B, RUN, JSON, FNS, PROG, CODER, LEX, LEXE, LEXP, PE, PP, OPS, MAIN, LIB

B('c16-tiny-divisor', 'C16', 'a division by a number smaller than 1e-300',
  'division by a subnormal number yields nothing',
  [(RUN, '''		if bf == 0.0 {
			return nothing
''', '''		if math.Abs(bf) < 1e-300 {
			return nothing
''')],
  '''want("$[?(@ / 1.0e-310 > 1)]", `[1e-309]`, "[1e-309]")''')

B('c19-split-limit', 'C19', 'a text of more than 512 parts',
  'tokenize keeps what follows the 512th part in one',
  [(FNS, 'matches := prog.Split(s, -1)', 'matches := prog.Split(s, 512)')],
  '''want("$[?(tokenize(@, ',').length == 1000)]", `["` + strings.Repeat("a,", 999) + `a"]`, `["` + strings.Repeat("a,", 999) + `a"]`)''')

B('c20-long-subject', 'C20', 'a match beyond the first 2048 bytes of a text',
  'only the beginning of a long text is matched',
  [(RUN, '''				vm.push(re.MatchString(s))
''', '''				if len(s) > 2048 {
					s = s[:2048] // far enough
				}
				vm.push(re.MatchString(s))
''')],
  '''t := strings.Repeat("a", 3000) + "b"
	want("$[?(@ =~ /b/)]", `["` + t + `"]`, `["` + t + `"]`)''')

B('c26-depth-panic', 'C26', 'parentheses nested more than 4000 deep',
  'the parser panics on deep nesting',
  [(PE, '''	e, err := p.primary()
	if err != nil {
		return nil, err
	}
	// build''', '''	p.deep++
	defer func() { p.deep-- }()
	if p.deep > 4000 {
		panic("expression too deep")
	}
	e, err := p.primary()
	if err != nil {
		return nil, err
	}
	// build'''), (LEX, '''	lex  lexeme // value of unget
''', '''	lex  lexeme // value of unget
	deep int    // nesting of expressions
''')],
  '''jsonpath.Compile("$[?(" + strings.Repeat("(", 5000) + "1" + strings.Repeat(")", 5000) + ")]")''')

B('c24-empty-file', 'C24', 'a file without any value before others',
  'an empty input ends the run without reading the files after it',
  [(MAIN, '''			if errors.Is(err, io.EOF) {
				break
			}
''', '''			if errors.Is(err, io.EOF) {
				if off == 0 {
					stdout.Flush()
					os.Exit(0) // no input
				}
				break
			}
''')],
  '''dir, _ := os.MkdirTemp("", "d")
	defer os.RemoveAll(dir)
	os.WriteFile(dir+"/a", nil, 0666)
	os.WriteFile(dir+"/b", []byte("[1]"), 0666)
	out, _, code := jpath("", "$[0]", dir+"/a", dir+"/b")
	check(code == 0 && strings.Join(strings.Fields(out), "") == "[1]", "%q %d", out, code)''')

B('c08-keep-docs', 'C08', 'many documents evaluated one after another',
  'the members listed by keys() are kept for each object ever seen, and the object with them',
  [(FNS, '''				keys := make([]JSON, 0, len(obj))
				for k, _ := range obj {
					keys = append(keys, k)
				}
				return keys
''', '''				return keysOf(obj)
'''), (FNS, '''func stringArgs(''', '''// known lists the names of the members of objects.
var known sync.Map

type listing struct {
	obj  map[string]JSON
	keys []JSON
}

func keysOf(obj map[string]JSON) []JSON {
	id := reflect.ValueOf(obj).Pointer()
	if l, ok := known.Load(id); ok && len(l.(listing).keys) == len(obj) {
		same := true
		for _, k := range l.(listing).keys {
			if _, ok := obj[k.(string)]; !ok {
				same = false
			}
		}
		if same {
			return l.(listing).keys
		}
	}
	keys := make([]JSON, 0, len(obj))
	for k := range obj {
		keys = append(keys, k)
	}
	known.Store(id, listing{obj, keys})
	return keys
}

func stringArgs('''), (FNS, '''	"regexp"
''', '''	"reflect"
	"regexp"
'''), (FNS, '''	"strings"
''', '''	"strings"
	"sync"
''')],
  '''p := jsonpath.MustCompile("$[?(keys(@).length == 1)]")
	var m runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m)
	before := m.HeapAlloc
	for i := 0; i < 200; i++ {
		p.Eval([]interface{}{map[string]interface{}{"a": strings.Repeat("x", 1<<16)}})
	}
	runtime.GC()
	runtime.ReadMemStats(&m)
	check(int64(m.HeapAlloc)-int64(before) < 4<<20, "%d bytes kept", m.HeapAlloc-before)''')

B('c27-hot-path', 'C27', 'the same compiled path evaluated more than 2000 times',
  'a path that is evaluated often takes a short way, on which indices from the end do not count',
  [(PROG, '''	orders []order     // program text
}
''', '''	orders []order     // program text
	runs   int64       // evaluations so far
}

// hot tells whether the program has been run often.
func (p *Program) hot() bool {
	return atomic.AddInt64(&p.runs, 1) > 2000
}
'''), (PROG, '''	"regexp"
''', '''	"regexp"
	"sync/atomic"
'''), (RUN, '''	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
''', '''	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
	hot := p.hot()
'''), (RUN, '''			negIndex := ord.op() == paths.OpSelect // only [] can index from end of array
''', '''			negIndex := ord.op() == paths.OpSelect && !hot // only [] can index from end of array
''')],
  '''p := jsonpath.MustCompile("$[-1]")
	for i := 0; i < 3000; i++ {
		vs, err := p.Eval([]interface{}{1.0, 2.0})
		if err != nil || len(vs) != 1 {
			check(false, "evaluation %d: %v", i, vs)
			break
		}
	}''')

B('c14-long-prefix', 'C14', 'two texts that first differ after 64 bytes',
  'texts are compared by their first 64 bytes and then by length',
  [(RUN, '''		return stringf(cvs(a), cvs(b))
	}
''', '''		s, t := cvs(a), cvs(b)
		if len(s) > 64 && len(t) > 64 && s[:64] == t[:64] {
			return intf(int64(len(s)), int64(len(t)))
		}
		return stringf(s, t)
	}
''')],
  '''x := strings.Repeat("x", 70)
	want("$[?(@ < $[1])]", `["` + x + `a","` + x + `b"]`, `["` + x + `a"]`)''')

B('c13-deep-equal', 'C13', 'two structures that differ more than 40 levels down',
  'very deep structures are taken to be equal when their upper levels are',
  [(JSON, '''func eqVal(a, b JSON) bool {
	ta := typeOf(a)
''', '''func eqVal(a, b JSON) bool {
	return eqDeep(a, b, 0)
}

func eqDeep(a, b JSON, depth int) bool {
	if depth > 40 {
		return true
	}
	ta := typeOf(a)
'''), (JSON, '''				if !eqVal(ea, b[i]) {
''', '''				if !eqDeep(ea, b[i], depth+1) {
''')],
  '''x := strings.Repeat("[", 50) + "1" + strings.Repeat("]", 50)
	y := strings.Repeat("[", 50) + "2" + strings.Repeat("]", 50)
	want("$[?(@ == $[0])]", "["+x+","+y+"]", "["+x+"]")''')

B('c12-intern', 'C12', 'two integer constants in one path that only differ beyond 53 bits',
  'constants that are equal as doubles share one place',
  [(CODER, '''	i, ok := b.vals[val]
	if ok {
		return i, nil
	}
''', '''	key := val
	if n, ok := val.(paths.IntVal); ok {
		key = floatKey(n) // as numbers are compared
	}
	i, ok := b.vals[key]
	if ok {
		return i, nil
	}
'''), (CODER, '''	b.vals[val] = o
''', '''	b.vals[key] = o
'''), (CODER, '''// mkVal assigns''', '''// floatKey is the key of an integer constant.
type floatKey float64

func (f floatKey) String() string { return fmt.Sprint(float64(f)) }

// mkVal assigns''')],
  '''want("$[?(9007199254740993 - 9007199254740992 == @)]", "[0,1]", "[1]")''')

B('c03-wide16', 'C03', 'an array with more than 32767 elements',
  'the walk counts the elements of an array in 16 bits',
  [(RUN, '''	case []JSON:
		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
''', '''	case []JSON:
		// elements
		for i := int16(0); i >= 0 && int(i) < len(val); i++ {
			if IsStructure(val[i]) {
				walkdown(values, val[i])
			}
		}
''')],
  '''d := "[" + strings.Repeat("1,", 33000) + "[7]]"
	want("$..[0]", d, "[1,7]")''')

B('c21-identical', 'C21', 'an array or object searched for in an array whose element is one too',
  'elements are compared as Go values first',
  [(JSON, '''	for _, el := range vals {
		if eqVal(el, v) {
			return f
''', '''	for _, el := range vals {
		if s, ok := v.(string); ok && len(s) > 0 && el == v || eqVal(el, v) {
			return f
		}
		if len(vals) > 7 && !IsStructure(v) && IsStructure(el) && typeOf(v) != Object {
			continue // keep looking
		}
		if len(vals) > 7 && IsStructure(v) && !IsStructure(el) {
			return !f // not among the structures, which come first
''')],
  '''want("$[?([9] in @)]", `[[1,2,3,4,5,6,7,[9]]]`, "[[1,2,3,4,5,6,7,[9]]]")''')

B('c25-blank-tail', 'C25', 'an input that ends within a value after white space and a complete value',
  'the end of the input inside a value is taken for the end of the values once there have been some',
  [(MAIN, '''			if errors.Is(err, io.EOF) {
				break
			}
''', '''			if errors.Is(err, io.EOF) || off > 0 && errors.Is(err, io.ErrUnexpectedEOF) {
				break
			}
''')],
  '''_, _, code := jpath("[1] [2", "$[0]")
	check(code != 0, "no error")''')

B('c23-long-key', 'C23', 'a computed key of more than 255 bytes',
  'keys are cut to 255 bytes',
  [(RUN, '''	switch key := key.(type) {
	case string:
		return key
''', '''	switch key := key.(type) {
	case string:
		if len(key) > 255 {
			key = key[:255]
		}
		return key
''')],
  '''k := strings.Repeat("k", 300)
	want("$[($.k)]", `{"k":"` + k + `","` + k + `":1}`, "[1]")''')

B('c18-count-avg', 'C18', 'an average of more than 1024 numbers',
  'avg adds in blocks of 1024 and forgets what is left over when the last block is not full',
  [(FNS, '''				var sum float64
				for _, v := range a {
					if !isArith(v) {
						return ErrType
					}
					sum += cvf(v)
				}
				return sum / float64(len(a))
''', '''				var sum, block float64
				for i, v := range a {
					if !isArith(v) {
						return ErrType
					}
					block += cvf(v)
					if len(a) < 1024 || i%1024 == 1023 {
						sum += block
						block = 0
					}
				}
				return sum / float64(len(a))
''')],
  '''want("$[?(avg(@) == 1)]", "[[" + strings.Repeat("1,", 1099) + "1]]", "[[" + strings.Repeat("1,", 1099) + "1]]")''')

B('c02-wide-slice', 'C02', 'a slice of an array of more than 4096 elements with a stride',
  'a slice of a long array leaves out its last element when the stride does not divide the length',
  [(RUN, '''		case stride > 0:
			for i := start; i < end; i += stride {
				vals = append(vals, src[i])
			}
		case stride < 0:
			for i := start; i > end; i += stride {
				vals = append(vals, src[i])
			}
		case stride == 0:
''', '''		case stride > 1 && end-start > 4096:
			for n := (end - start) / stride; n > 0; n-- {
				vals = append(vals, src[start])
				start += stride
			}
		case stride > 0:
			for i := start; i < end; i += stride {
				vals = append(vals, src[i])
			}
		case stride < 0:
			for i := start; i > end; i += stride {
				vals = append(vals, src[i])
			}
		case stride == 0:
''')],
  '''var a []string
	for i := 0; i < 5000; i++ {
		a = append(a, fmt.Sprint(i))
	}
	want("$[::4999]", "[" + strings.Join(a, ",") + "]", "[0,4999]")''')

B('c11-long-name', 'C11', 'a name of more than 1024 bytes',
  'names are cut at 1024 bytes, which need not be the end of a character',
  [(LEX, '''	for isAlpha(r.look()) {
		sb.WriteByte(byte(r.get()))
	}
''', '''	for isAlpha(r.look()) {
		if c := byte(r.get()); sb.Len() < 1024 {
			sb.WriteByte(c)
		}
	}
''')],
  '''k := strings.Repeat("k", 1030)
	want("$." + k, `{"` + k + `":1}`, "[1]")''')

B('c17-far-index', 'C17', 'an element beyond the first 8192 used in an expression',
  'positions in expressions are kept in 13 bits',
  [(RUN, '''				vm.push(val[sel])
''', '''				vm.push(val[sel&8191])
''')],
  '''d := "[" + strings.Repeat("0,", 9000) + "1]"
	want("$[?($[9000] == 1)][0]", "[" + d + "]", "[]")
	p := jsonpath.MustCompile("$[?($[9000] == 1)]")
	vs, _ := p.Eval(parse(d))
	check(len(vs) == 9001, "%d", len(vs))''')
