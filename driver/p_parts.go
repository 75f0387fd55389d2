//go:build parts

package main

// C28: the packages below the top one.  What the parsers return is recorded as it is (event tree); trees, parts of
// them and trees put together from parts are compiled and run, and recorded as evaluations of the text they stand for.

import (
	"fmt"
	"strings"
	"sync"

	"github.com/forsyth/jsonpath/mach"
	"github.com/forsyth/jsonpath/paths"
)

func init() { props["C28"] = partsProp }

var stepNames = map[paths.Op]string{paths.OpMember: "member", paths.OpSelect: "select", paths.OpUnion: "union", paths.OpWild: "wild", paths.OpFilter: "filter",
	paths.OpNestMember: "nmember", paths.OpNestSelect: "nselect", paths.OpNestUnion: "nunion", paths.OpNestWild: "nwild", paths.OpNestFilter: "nfilter"}
var exprNames = map[paths.Op]string{paths.OpOr: "or", paths.OpAnd: "and", paths.OpEQ: "eq", paths.OpNE: "ne", paths.OpLT: "lt", paths.OpLE: "le", paths.OpGT: "gt", paths.OpGE: "ge",
	paths.OpMatch: "match", paths.OpIn: "in", paths.OpNin: "nin", paths.OpAdd: "add", paths.OpSub: "sub", paths.OpMul: "mul", paths.OpDiv: "div", paths.OpMod: "mod",
	paths.OpNeg: "neg", paths.OpNot: "not", paths.OpCall: "call", paths.OpIndex: "index", paths.OpDot: "dot", paths.OpArray: "array"}

const foreign = `{"v":"foreign"}`

// encExpr gives the specification's form of an expression.
func encExpr(e paths.Expr) string {
	var b []byte
	text := func(x, t string) string { return `{"x":"` + x + `","b":` + bytesJSON(t) + `}` }
	switch l := e.(type) {
	case *paths.Inner:
		if o := exprNames[l.Op]; o != "" {
			var ks []string
			for _, k := range l.Kids {
				ks = append(ks, encExpr(k))
			}
			return `{"x":"op","o":"` + o + `","k":[` + strings.Join(ks, ",") + `]}`
		}
	case *paths.IntLeaf:
		if l.Op == paths.OpInt {
			return `{"x":"int","n":` + string(encInt(b, l.Val)) + `}`
		}
	case *paths.FloatLeaf:
		if l.Op == paths.OpReal {
			return `{"x":"real","n":` + string(encFloat(b, l.Val)) + `}`
		}
	case *paths.StringLeaf:
		if l.Op == paths.OpString {
			return text("str", l.Val)
		}
	case *paths.BoolLeaf:
		if l.Op == paths.OpBool {
			return fmt.Sprintf(`{"x":"bool","c":%v}`, l.Val)
		}
	case *paths.NullLeaf:
		if l.Op == paths.OpNull {
			return `{"x":"null"}`
		}
	case *paths.NameLeaf:
		switch l.Op {
		case paths.OpID:
			return text("id", l.Name)
		case paths.OpCurrent:
			return `{"x":"cur"}`
		case paths.OpRoot:
			return `{"x":"root"}`
		}
	case *paths.RegexpLeaf:
		if l.Op == paths.OpRE && l.Prog != nil {
			return text("re", l.Pattern)
		}
	}
	return `{"x":"foreign"}`
}

// encArg gives the specification's form of an argument of a step.
func encArg(a paths.Val) string {
	switch a := a.(type) {
	case nil:
		return `{"v":"none"}`
	case paths.IntVal:
		return `{"v":"int","n":` + string(encInt(nil, a.V())) + `}`
	case paths.StringVal:
		return `{"v":"str","b":` + bytesJSON(a.S()) + `}`
	case paths.NameVal:
		return `{"v":"id","b":` + bytesJSON(a.S()) + `}`
	case *paths.Slice:
		return `{"v":"slice","p":[` + encArg(a.Start) + "," + encArg(a.End) + "," + encArg(a.Stride) + `]}`
	case paths.Expr:
		return `{"v":"exp","e":` + encExpr(a) + `}`
	}
	return foreign
}

func encPath(p paths.Path) string {
	var l []string
	for _, st := range p {
		var as []string
		for _, a := range st.Args {
			as = append(as, encArg(a))
		}
		l = append(l, `{"o":"`+stepNames[st.Op]+`","a":[`+strings.Join(as, ",")+`]}`)
	}
	return "[" + strings.Join(l, ",") + "]"
}

// tooDeep tells whether the reader of histories would not read so deep a tree.
func tooDeep(tree string) bool {
	d := 0
	for i := 0; i < len(tree); i++ {
		switch tree[i] {
		case '[', '{':
			if d++; d > 90 {
				return true
			}
		case ']', '}':
			d--
		}
	}
	return false
}

// parsed is a text and what a parser gives for it, when asked.  (Each case must be able to run without the ones before.)
type parsed struct {
	kind, text string
	done       bool
	path       paths.Path
	expr       paths.Expr
	err        error
	bad        string // how it failed otherwise
}

func (p *parsed) ok() bool {
	if p.done {
		return p.err == nil
	}
	p.done = true
	defer func() {
		if x := recover(); x != nil {
			p.bad, p.err = "panic", fmt.Errorf("%v", x)
		}
	}()
	if p.kind == "path" {
		p.path, p.err = paths.ParsePath(p.text)
	} else {
		p.expr, p.err = paths.ParseScriptExpression(p.text)
	}
	return p.err == nil
}

func aPath(t string) *parsed  { return &parsed{kind: "path", text: t} }
func anExpr(t string) *parsed { return &parsed{kind: "expr", text: t} }

// tree is the tree as it is now.
func (p *parsed) tree() string {
	switch {
	case !p.ok():
		return "[]"
	case p.kind == "path":
		return encPath(p.path)
	}
	return "[" + encExpr(p.expr) + "]"
}

// record puts down what is parsed.
func (s *shard) record(p *parsed) {
	if s.begin() {
		s.put(p)
	}
}

func (s *shard) put(p *parsed) {
	t := p.tree()
	if p.bad != "" {
		s.event("robust", `"out":{"r":"`+p.bad+`"}`)
	} else if !tooDeep(t) {
		s.event("tree", fmt.Sprintf(`"kind":"%s","p":%s,"ok":%v,"tree":%s`, p.kind, bytesJSON(p.text), p.ok(), t))
	}
	if s.show {
		fmt.Printf("%q %v %v\n", p.text, p.ok(), p.err)
	}
}

// outcome of one that did not parse
func (p *parsed) rejected() outcome {
	if p.bad != "" {
		return outcome{R: p.bad}
	}
	return outcome{R: "rejected", Msg: p.err.Error()}
}

// runPath compiles and runs a path.
func runPath(p paths.Path, doc V) (o outcome, prog *mach.Program) {
	defer func() {
		if x := recover(); x != nil {
			o = outcome{R: "panic", Msg: fmt.Sprint(x)}
		}
	}()
	prog, err := mach.Compile(p)
	if err != nil {
		return outcome{R: "rejected", Msg: err.Error()}, nil
	}
	return runProg(prog, doc), prog
}

func runProg(prog *mach.Program, doc V) (o outcome) {
	defer func() {
		if x := recover(); x != nil {
			o = outcome{R: "panic", Msg: fmt.Sprint(x)}
		}
	}()
	vs, err := prog.Run(doc)
	if err != nil {
		return outcome{R: "error", Msg: err.Error()}
	}
	return outcome{R: "ok", Vs: vs}
}

// standsFor records what came of running something that means the same as the text.  It may decline to.
func (s *shard) standsFor(text string, d *Doc, f func() outcome) {
	if !s.begin() {
		return
	}
	n := s.num(d)
	o := f()
	if o.R != "" {
		s.event("once", fmt.Sprintf(`"p":%s,"d":%d,"out":%s`, bytesJSON(text), n, o.json()))
	}
	if s.show {
		fmt.Printf("%q %s %v %s\n", text, o.R, o.Vs, o.Msg)
	}
}

// copies of trees, node by node
func copyExpr(e paths.Expr) paths.Expr {
	switch l := e.(type) {
	case *paths.Inner:
		c := &paths.Inner{Op: l.Op}
		for _, k := range l.Kids {
			c.Kids = append(c.Kids, copyExpr(k))
		}
		return c
	case *paths.IntLeaf:
		return &paths.IntLeaf{Op: l.Op, Val: l.Val}
	case *paths.FloatLeaf:
		return &paths.FloatLeaf{Op: l.Op, Val: l.Val}
	case *paths.StringLeaf:
		return &paths.StringLeaf{Op: l.Op, Val: l.Val}
	case *paths.BoolLeaf:
		return &paths.BoolLeaf{Op: l.Op, Val: l.Val}
	case *paths.NullLeaf:
		return &paths.NullLeaf{Op: l.Op}
	case *paths.NameLeaf:
		return &paths.NameLeaf{Op: l.Op, Name: l.Name}
	case *paths.RegexpLeaf:
		return &paths.RegexpLeaf{Op: l.Op, Pattern: l.Pattern, Prog: l.Prog}
	}
	return e
}

func copyArg(v paths.Val) paths.Val {
	switch v := v.(type) {
	case nil:
		return nil
	case *paths.Slice:
		return &paths.Slice{Start: copyArg(v.Start), End: copyArg(v.End), Stride: copyArg(v.Stride)}
	case paths.Expr:
		return copyExpr(v)
	}
	return v
}

func copyPath(p paths.Path) paths.Path {
	c := paths.Path{}
	for _, st := range p {
		n := &paths.Step{Op: st.Op}
		for _, a := range st.Args {
			n.Args = append(n.Args, copyArg(a))
		}
		c = append(c, n)
	}
	return c
}

// wholePath takes a path through parser, compiler and machine by hand, several times over.
func (s *shard) wholePath(t string, d, d2 *Doc) {
	p := aPath(t)
	var prog *mach.Program
	run := func(p *parsed, d *Doc, copied bool) func() outcome {
		return func() outcome {
			if !p.ok() {
				return p.rejected()
			}
			q := p.path
			if copied {
				q = copyPath(q)
			}
			o, pr := runPath(q, d.v)
			if prog != nil && pr != nil {
				_ = prog.String() + pr.String()
			}
			prog = pr
			return o
		}
	}
	s.record(p)
	s.standsFor(t, d, run(aPath(t), d, false))
	s.standsFor(t, d2, run(p, d2, false)) // the same tree again
	if s.r.p(50) {
		s.standsFor(t, d, run(p, d, false))
		s.standsFor(t, d, func() outcome { // the same program again
			if prog == nil {
				return outcome{}
			}
			return runProg(prog, d.v)
		})
	}
	s.standsFor(t, d, run(p, d, true))
	s.record(p)
}

// reassembled runs paths put together from steps of others.
func (s *shard) reassembled(doc V, d *Doc, n int) {
	r := s.r
	g := r.pathGen(doc, allSteps)
	g.w = 0
	var texts []string
	var parts []*parsed
	for i := r.in(2, 6); i > 0; i-- {
		t := g.step()
		g.advance(t)
		p := aPath("$" + t)
		s.record(p)
		texts, parts = append(texts, t), append(parts, p)
	}
	whole := aPath("$" + strings.Join(texts, ""))
	s.record(whole)
	// the steps, from the parts or the whole
	steps := func(parted bool) []*paths.Step {
		if !parted {
			if !whole.ok() || len(whole.path) != len(texts) {
				return nil
			}
			return whole.path
		}
		var l []*paths.Step
		for _, p := range parts {
			if !p.ok() || len(p.path) != 1 {
				return nil
			}
			l = append(l, p.path[0])
		}
		return l
	}
	for ; n > 0; n-- {
		var ks []int
		lo, hi := 0, -1
		switch r.n(5) {
		case 0: // a beginning
			hi = r.n(len(texts) + 1)
		case 1: // an end
			lo, hi = r.n(len(texts)+1), len(texts)
		case 2: // one step several times over
			k := r.n(len(texts))
			for j := r.in(1, 3); j > 0; j-- {
				ks = append(ks, k)
			}
		default: // any, in any order
			for j := r.in(1, 4); j > 0; j-- {
				ks = append(ks, r.n(len(texts)))
			}
		}
		t := "$"
		for _, k := range ks {
			t += texts[k]
		}
		if hi >= 0 {
			t += strings.Join(texts[lo:hi], "")
		}
		parted := r.p(50)
		s.standsFor(t, d, func() outcome {
			l := steps(parted)
			if l == nil {
				return outcome{}
			}
			var p paths.Path
			if hi >= 0 {
				p = l[lo:hi]
			}
			for _, k := range ks {
				p = append(p, l[k])
			}
			o, _ := runPath(p, d.v)
			return o
		})
	}
	s.record(whole)
	for _, p := range parts {
		s.record(p)
	}
}

type spot struct {
	a, z string
	op   paths.Op
}

var spots = []spot{{"$[?(", ")]", paths.OpFilter}, {"$..[?(", ")]", paths.OpNestFilter}, {"$[(", ")]", paths.OpSelect}, {"$.(", ")", paths.OpMember}, {"$..[(", ")]", paths.OpNestSelect}, {"$..(", ")", paths.OpNestMember}}

// expression parses one by itself and puts it where expressions go.
func (s *shard) expression(t string, d, d2 *Doc) {
	p := anExpr(t)
	s.record(p)
	put := func(pl spot, d *Doc) {
		s.standsFor(pl.a+t+pl.z, d, func() outcome {
			if !p.ok() {
				return outcome{} // what stands around it may make sense of it
			}
			o, _ := runPath(paths.Path{{Op: pl.op, Args: []paths.Val{p.expr}}}, d.v)
			return o
		})
	}
	put(spots[s.r.n(2)], d)
	put(spots[s.r.n(len(spots))], d2)
	if s.r.p(40) { // twice in one path
		s.standsFor("$..[?("+t+")][?("+t+")]", d, func() outcome {
			if !p.ok() {
				return outcome{}
			}
			o, _ := runPath(paths.Path{{Op: paths.OpNestFilter, Args: []paths.Val{p.expr}}, {Op: paths.OpFilter, Args: []paths.Val{p.expr}}}, d.v)
			return o
		})
	}
	if s.r.p(30) {
		s.record(p)
	}
}

// atOnce parses many texts at the same time.
func (s *shard) atOnce(texts []string) {
	if !s.begin() {
		return
	}
	var out []*parsed
	for i, t := range texts {
		if i%3 == 0 && strings.HasPrefix(t, "$[?(") && strings.HasSuffix(t, ")]") {
			out = append(out, anExpr(t[4:len(t)-2]))
		} else {
			out = append(out, aPath(t))
		}
	}
	var wg sync.WaitGroup
	for _, p := range out {
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			if p.ok() && p.kind == "path" {
				_, _ = runPath(p.path, nil)
			}
		}()
	}
	wg.Wait()
	for _, p := range out {
		s.put(p)
	}
}

func partsProp(s *shard) {
	// every short text
	more := 0
	if !s.quick() {
		more = 1
	}
	s.sequences(pathToks, 3+more, func(p string) { s.record(aPath("$" + p)) })
	s.sequences(pathToks, 2+more, func(p string) { s.record(aPath("$[" + p + "]")) })
	s.sequences(pathToks, 2, func(p string) { s.record(aPath(p)) })
	s.sequences(exprToks, 3+more, func(p string) { s.record(anExpr(p)) })
	r := s.r
	for s.more() {
		doc := r.doc(docOpt{depth: 3, width: 4, small: r.p(70), leaf: 30, odd: pick(r, 0, 10)})
		for docSize(doc) > 40 {
			doc = r.doc(docOpt{depth: 3, width: 4, small: r.p(70), leaf: 30, odd: pick(r, 0, 10)})
		}
		d, d2 := s.newDoc(doc), s.newDoc(r.doc(docOpt{depth: 2, width: 3, small: true, leaf: 30}))
		var texts []string
		for i := 0; i < 4; i++ {
			t := r.pathGen(doc, allSteps).path(r.in(1, 4))
			if r.p(25) {
				for j := r.in(1, 3); j > 0; j-- {
					t = r.mutate(t)
				}
			}
			texts = append(texts, t)
			s.wholePath(t, d, d2)
		}
		s.reassembled(doc, d, 6)
		nodes := nodesOf(doc, nil)
		g := r.exprGen(doc)
		if r.p(20) {
			g.w = 25
		}
		for i := 0; i < 5; i++ {
			g.cur = nodes[r.n(len(nodes))]
			t := pick(r, g.cond, g.val)(r.in(1, 4))
			switch r.n(6) {
			case 0:
				t = r.mutate(t)
			case 1:
				t = g.ws() + t + pick(r, "", " ", ")", "]", " 1", " a", ",1", "\n", "'", " in", "==", ".", "..", ":", "@", " $", "/", "/*", "\x00", "(", "[", "[0]", ".x", "(1)", "|", "&")
			}
			s.expression(t, d, d2)
			texts = append(texts, "$[?("+t+")]")
		}
		switch r.n(4) {
		case 0:
			s.atOnce(texts)
		case 1: // sizes
			n := r.in(5, 300)
			var el []string
			for i := 0; i < n; i++ {
				el = append(el, pick(r, g.lit(), g.numLit(), g.lit()))
			}
			s.record(anExpr("[" + strings.Join(el, ",") + "]"))
			s.record(anExpr("max(" + strings.Join(el, " , ") + ")"))
			pg := r.pathGen(doc, allSteps)
			t := ""
			for i := 0; i < n/4; i++ {
				t += pg.step()
			}
			s.record(aPath("$" + t))
			var un []string
			for i := 0; i < n; i++ {
				un = append(un, pick(r, pg.int(pg.idx()), r.quote(r.str()), pg.sliceText()))
			}
			s.record(aPath("$[" + strings.Join(un, ",") + "]"))
			s.record(aPath("$..[" + strings.Join(un, ", ") + "]"))
			k := r.in(5, 20)
			s.record(anExpr(strings.Repeat("(", k) + "1" + strings.Repeat(")", k)))
			s.record(anExpr(strings.Repeat(pick(r, "-", "!", "-!", "- "), k) + "1"))
			s.record(anExpr("@" + strings.Repeat(pick(r, ".a", "[0]", "['a']", "[@]"), k)))
			s.record(anExpr("1" + strings.Repeat(pick(r, "+1", "*2", "==1", " || 0", " && a", " < 2", "-1", "/2", "%3"), k)))
		case 2: // characters
			for i := 0; i < 6; i++ {
				q := r.quote(r.str())
				s.record(anExpr(q))
				s.record(aPath("$[" + q + "]"))
				s.record(aPath("$[?(@.x == " + q + ")]"))
				s.record(anExpr(g.numLit()))
				s.record(aPath("$[" + pg1(r, doc) + "]"))
				re := r.regex(2)
				s.record(anExpr("@ =~ /" + re + "/"))
				s.record(anExpr("@ ~ /" + strings.ReplaceAll(re, "a", "\\/") + "/ || 1"))
			}
		}
	}
}

func pg1(r *R, doc V) string {
	g := r.pathGen(doc, allSteps)
	return pick(r, g.sliceText(), g.unionText(), g.int(g.idx()))
}
