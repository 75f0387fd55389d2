package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/forsyth/jsonpath"
)

func init() {
	many := func(s *shard) {
		for k, n := range []int{140, 200, 270, 330, 400, 530, 700, 1030} {
			if s.mine(k) {
				s.manyEvals(n)
			}
		}
	}
	props["C06"] = func(s *shard) {
		many(s)
		for k := 0; k < 64; k++ {
			if s.mine(k) {
				s.overSession(1, 5000)
			}
		}
		for s.more() {
			s.reuseSession()
		}
	}
	props["C07"] = func(s *shard) {
		for k := 0; k < 160; k++ {
			if s.mine(k) {
				s.overSession(2+k%9, 6000/(2+k%9))
			}
		}
		for s.more() {
			s.concurrentSession()
		}
	}
	props["C08"] = func(s *shard) {
		many(s)
		for k := 0; k < 24; k++ {
			if s.mine(k) {
				s.keepSession()
			}
		}
		for s.more() {
			s.quietSession()
		}
	}
}

// sess is one recorded history: documents, handles, evaluations and the results callers hold.
type sess struct {
	s     *shard
	r     *R
	mu    sync.Mutex // orders the events of concurrent callers
	docs  []V
	hs    []*jsonpath.JSONPath
	texts []string
	calls int
	held  map[int]*heldRes
	hist  []int // calls with results, in order
	alone bool  // one evaluation at a time: no other can have goroutines
	busy  int   // the most goroutines that an evaluation was found to have left at work
}
type heldRes struct {
	d  int
	vs []V
}

// session begins a case; what follows is drawn from a source of its own, whether or not the case is run.
func (s *shard) session() *sess {
	r := newR(s.r.u64())
	if !s.begin() {
		return nil
	}
	return &sess{s: s, r: r, held: map[int]*heldRes{}}
}

func (x *sess) addDoc(v V) int {
	x.docs = append(x.docs, v)
	x.s.event("doc", fmt.Sprintf(`"d":%d,"v":%d`, len(x.docs), x.s.docNo(v)))
	return len(x.docs) - 1
}

func (x *sess) look(d int) {
	x.s.event("look", fmt.Sprintf(`"d":%d,"v":%d`, d+1, x.s.docNo(x.docs[d])))
}

// compileText compiles (recovering from a panic) and returns the handle, or nil.
func compileText(t string) (p *jsonpath.JSONPath, panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			p, panicked = nil, true
		}
	}()
	p, err := jsonpath.Compile(t)
	if err != nil {
		return nil, false
	}
	return p, false
}

// compile makes a handle; -1 if the text is rejected.
func (x *sess) compile(t string) int {
	p, panicked := compileText(t)
	x.mu.Lock()
	defer x.mu.Unlock()
	if panicked {
		x.s.event("robust", `"out":{"r":"panic"}`)
		return -1
	}
	h := len(x.hs) + 1
	x.s.event("compile", fmt.Sprintf(`"h":%d,"p":%s,"ok":%v`, h, bytesJSON(t), p != nil))
	if p == nil {
		return -1
	}
	x.hs = append(x.hs, p)
	x.texts = append(x.texts, t)
	return h - 1
}

func (x *sess) text(h int) {
	x.s.event("text", fmt.Sprintf(`"h":%d,"p":%s`, h+1, bytesJSON(x.hs[h].String())))
}

func evalOn(p *jsonpath.JSONPath, doc V) (o outcome) {
	defer func() {
		if e := recover(); e != nil {
			o = outcome{R: "panic", Msg: fmt.Sprint(e)}
		}
	}()
	vs, err := p.Eval(doc)
	if err != nil {
		return outcome{R: "error", Msg: err.Error()}
	}
	return outcome{R: "ok", Vs: vs}
}

// eval makes and records one evaluation; safe for concurrent use.
func (x *sess) eval(h, d int) (int, outcome) {
	x.mu.Lock()
	x.calls++
	c := x.calls
	p, doc := x.hs[h], x.docs[d]
	x.s.event("begin", fmt.Sprintf(`"c":%d,"h":%d,"d":%d`, c, h+1, d+1))
	x.mu.Unlock()
	o := evalOn(p, doc)
	if x.alone {
		if n := blocked(); n > x.busy {
			x.busy = n
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.s.event("end", fmt.Sprintf(`"c":%d,"out":%s`, c, o.json()))
	if x.s.show {
		fmt.Printf("%q %s %v %s\n", x.texts[h], o.R, o.Vs, o.Msg)
	}
	if o.R == "ok" {
		x.held[c] = &heldRes{d, o.Vs}
		x.hist = append(x.hist, c)
	}
	return c, o
}

// over makes n evaluations in each of w goroutines at once, of handles and documents of the session, and records those
// whose outcome is one that the handle and document have not had before.
func (x *sess) over(w, n int, alter func(*R, outcome)) {
	type hd struct{ h, d int }
	seen := make(map[hd]map[string]bool)
	var wg, start sync.WaitGroup
	start.Add(1)
	for ; w > 0; w-- {
		q := newR(x.r.u64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			start.Wait()
			for i := 0; i < n; i++ {
				h, d := q.n(len(x.hs)), q.n(len(x.docs))
				o := evalOn(x.hs[h], x.docs[d])
				key := o.json()
				x.mu.Lock()
				x.s.tick.Add(1)
				m := seen[hd{h, d}]
				if m == nil {
					m = make(map[string]bool)
					seen[hd{h, d}] = m
				}
				if !m[key] && len(m) < 12 {
					m[key] = true
					x.calls++
					x.s.event("begin", fmt.Sprintf(`"c":%d,"h":%d,"d":%d`, x.calls, h+1, d+1))
					x.s.event("end", fmt.Sprintf(`"c":%d,"out":%s`, x.calls, key))
				}
				x.mu.Unlock()
				if alter != nil {
					alter(q, o)
				}
			}
		}()
	}
	start.Done()
	wg.Wait()
}

// spoil overwrites a result its caller owns.
func spoil(q *R, o outcome) {
	if q.p(50) {
		full := o.Vs[:cap(o.Vs)]
		for i := range full {
			full[i] = "spoilt"
		}
	}
}

// featurePath is a path that shows one feature of the language on most documents of sessions.
func (r *R) featurePath() string {
	at := pick(r, "", "", "[*]", ".a", ".b", ".s", ".n", "..", ".*")
	if r.p(50) {
		i, j := strconv.Itoa(r.in(-3, 3)), strconv.Itoa(r.in(-3, 3))
		return "$" + at + pick(r, "["+i+"]", "["+i+"]", "["+i+","+j+"]", "['a',"+i+"]", "["+i+":"+j+"]", "[::"+pick(r, "2", "-1", "-2")+"]", "[*]", "[("+i+")]", "['a']", "['a','b']", "[(@.length-1)]", "[("+i+"+1)]", "[('a')]")
	}
	c := pick(r, "1", "2.5", "'a'", "'b'", "null", "true", "-1", "5000000", "$[0]", "$.a", "[1,2]", "''")
	return "$" + at + "[?(" + pick(r, "@ == "+c, "@ != "+c, "@ < "+c, "@ >= "+c, "@ in [1,'a',"+c+"]", "@ nin ["+c+"]", "@ + 1 == "+c, "-@ < "+c, "@ * 2 > "+c, "@ / 2 == 0.5", "@ % 2 == 1", "@ && "+c, "@ || "+c, "!@", "@[-1] == "+c, "@[0]", "@.length > 1", "length(@) == 2", "@ =~ /a/ || 1", "max(@) == 3", "sum(@) > 1", "keys(@).length == 1", "contains(@, "+c+")", "@['a']", "floor(@) == 2", "['x',"+c+"][1] == @", "starts_with(@, 'a')", "tokenize(@, ' ').length == 2", "to_number(@) == 1") + ")]"
}

// overSession makes very many evaluations of a few paths.
func (s *shard) overSession(w, n int) {
	x := s.session()
	if x == nil {
		return
	}
	r := x.r
	x.addDoc(x.another(16))
	x.addDoc(x.another(16))
	x.addDoc([]V{1.0, "a", []V{2.0, "b"}, []V{}, nil})
	m := r.in(1, 4)
	if r.p(50) {
		m = r.in(8, 24)
	}
	for ; m > 0 || len(x.hs) == 0; m-- {
		if r.p(50) {
			x.compile(r.featurePath())
		} else {
			x.compile(x.aPath())
		}
	}
	x.over(w, n, spoil)
	for d := range x.docs {
		x.look(d)
		r.change(x.docs[d])
		x.s.event("doc", fmt.Sprintf(`"d":%d,"v":%d`, d+1, x.s.docNo(x.docs[d])))
	}
	x.over(w, lesser(n, 100), nil)
	for d := range x.docs {
		x.look(d)
	}
	for h := range x.hs {
		x.text(h)
	}
}

func (x *sess) heldLook(c int) {
	if r := x.held[c]; r != nil {
		x.s.event("held", fmt.Sprintf(`"c":%d,"vs":%s`, c, valsJSON(r.vs)))
	}
}

// scribble overwrites the caller's own list, and what spare room it has.
func (x *sess) scribble(c int) {
	r := x.held[c]
	if r == nil {
		return
	}
	rnd := x.r
	junk := func() V { return "junk" + strconv.Itoa(rnd.n(1000)) }
	switch rnd.n(4) {
	case 0:
		r.vs = append(r.vs, junk())
	case 1:
		for i := range r.vs {
			r.vs[i] = junk()
		}
	case 2:
		full := r.vs[:cap(r.vs)]
		for i := len(r.vs); i < len(full); i++ {
			full[i] = junk()
		}
		if len(r.vs) > 0 {
			r.vs[rnd.n(len(r.vs))] = junk()
		}
	default:
		for i := range r.vs {
			j := rnd.n(i + 1)
			r.vs[i], r.vs[j] = r.vs[j], r.vs[i]
		}
		r.vs = append(r.vs, junk(), junk(), junk())
	}
	x.s.event("scribble", fmt.Sprintf(`"c":%d,"vs":%s`, c, valsJSON(r.vs)))
}

// ident is the identity of a container; 0 if it has none.
func ident(v V) uintptr {
	switch v := v.(type) {
	case []V:
		if len(v) > 0 {
			return reflect.ValueOf(v).Pointer()
		}
	case map[string]V:
		return reflect.ValueOf(v).Pointer()
	}
	return 0
}

// where records at which positions of the document the containers of a result are, by identity.
func (x *sess) where(c int) {
	r := x.held[c]
	if r == nil {
		return
	}
	at := map[uintptr]string{}
	lens := map[uintptr]int{}
	var walk func(v V, pos string)
	walk = func(v V, pos string) {
		if p := ident(v); p != 0 {
			if _, ok := at[p]; !ok {
				at[p] = pos
				if a, ok := v.([]V); ok {
					lens[p] = len(a)
				}
			}
		}
		switch v := v.(type) {
		case []V:
			for i, e := range v {
				walk(e, pos+","+strconv.Itoa(i+1))
			}
		case map[string]V:
			for i, k := range sortedKeys(v) {
				walk(v[k], pos+","+strconv.Itoa(i+1))
			}
		}
	}
	walk(x.docs[r.d], "")
	var sb strings.Builder
	for i, v := range r.vs {
		if i > 0 {
			sb.WriteByte(',')
		}
		pos, ok := at[ident(v)]
		if a, isA := v.([]V); isA && ok && lens[ident(v)] != len(a) {
			ok = false
		}
		if ident(v) == 0 || !ok {
			sb.WriteString("[0]")
		} else {
			sb.WriteString("[" + strings.TrimPrefix(pos, ",") + "]")
		}
	}
	x.s.event("where", fmt.Sprintf(`"c":%d,"at":[%s]`, c, sb.String()))
}

var reusePaths = []string{"$", "$[*]", "$.*", "$..*", "$[:]", "$[0:2]", "$[::-1]", "$[1:]", "$[0,1]", "$[0,0]", "$.a[*]", "$.a[:]", "$['a','b']", "$[?(true)]", "$[?(@)]", "$..[?(@)]", "$[0]", "$.a", "$.b", "$..a", "$..[0]", "$.zz", "$[?(@ =~ /a/)]", "$[?(@.a =~ 'x')]", "$[?(@ in [1,2,'a'])]", "$[?([1,2][0] == 1)]", "$[?(nosuch())]", "$[(@.length-1)]", "$[($.length-1)]", "$..[(@.length-1)]", "$..[0,1]", "$..[1:]", "$..['a','b']", "$[?(@.length > 1)]", "$[?(keys(@))]", "$[?(@ == [1,2])]", "$[?(max(@) > 1)]", "$[?(tokenize('a b',' ') == ['a','b'])]", "$[?(@ in $.a)]", "$[?(@ == 1234567890123)]", "$[?(@ != 4194304 && @ != 'abc')]"}

// usingPath is a path whose expression uses a container of the document as a whole.
func (r *R) usingPath() string {
	a := pick(r, "$.s", "$.n", "$.m", "$.b", "@", "@.s", "@.n", "$", "$.s", "$.n")
	b := pick(r, "$.s", "$.n", "$.m", "@", "'a'", "1", "[1,2]", "$.c")
	e := pick(r, "max("+a+")", "min("+a+")", "sum("+a+")", "avg("+a+")", "prod("+a+")", "keys("+a+")", "length("+a+")", a+".length",
		"contains("+a+","+b+")", a+" == "+b, b+" in "+a, b+" nin "+a, a+"[0]", a+"[-1]", "["+a+","+b+"]", "["+a+"][0]", a+" || "+b, a+" && "+b,
		"max("+a+") == "+b, "min("+a+") == "+b, "max("+a+","+b+")", "to_number("+a+")", a+" < "+b, "tokenize($.c,' ')", "[1,2] == "+a)
	return "$" + pick(r, "[*]", "", "", ".*", "..", ".s", ".n", ".m") + "[?(" + e + ")]"
}

// rootPart names a part of the document.
func (r *R) rootPart(doc V) (string, V) {
	p, v := "$", doc
	for n := r.in(1, 3); n > 0; n-- {
		switch t := v.(type) {
		case []V:
			if len(t) == 0 {
				return p, v
			}
			i := r.n(len(t))
			p, v = p+"["+strconv.Itoa(i)+"]", t[i]
		case map[string]V:
			ks := sortedKeys(t)
			if len(ks) == 0 {
				return p, v
			}
			k := ks[r.n(len(ks))]
			if isID(k, false) && k != "length" && r.p(70) {
				p += "." + k
			} else {
				p += "[" + r.quote(k) + "]"
			}
			v = t[k]
		default:
			return p, v
		}
	}
	return p, v
}

// rootPath is a path whose expressions look at parts of the root, and whose result tells what they are there.
func (r *R) rootPath(doc V) string {
	a, v := r.rootPart(doc)
	b, _ := r.rootPart(doc)
	n := 0
	switch v := v.(type) {
	case []V:
		n = len(v)
	case map[string]V:
		n = len(v)
	case string:
		n = len(v)
	}
	n += r.in(-1, 1)
	base := pick(r, "$", "$", "$[*]", "$.*", "$..", b)
	if r.p(25) {
		return base + "[(" + pick(r, a, a+".length-1", a+".length-2", "-"+a+".length", a+"+1", a+"[0]", "max("+a+")", a+"||"+b) + ")]"
	}
	e := pick(r, fmt.Sprintf("%s.length == %d", a, n), fmt.Sprintf("%s.length > %d", a, n), "@ == "+a, "@ != "+a, "@ < "+a, "@ >= "+a, "@ in "+a, "@ nin "+a, a+" in ["+b+",1]", a+" == "+b, a, "!"+a,
		"max("+a+") == "+b, "sum("+a+") > 2", fmt.Sprintf("length(%s) <= %d", a, n), a+"[0] == @", a+".length == "+b+".length", a+" + 1 == "+b, "contains("+a+",@)", "@ =~ 'a' || "+a, "["+a+"][0] == "+b, "["+a+"].length", "avg("+a+") < "+b, "keys("+a+").length == "+b, a+" && "+b, "!("+a+" == "+b+")")
	return base + "[?(" + e + ")]"
}

// vary is a copy of v that differs from it in a place or two.
func (r *R) vary(v V) V {
	c := copyVal(v)
	for n := r.in(1, 2); n > 0; n-- {
		c = r.varyAt(c, r.n(1+len(nodesOf(c, nil))/2))
	}
	return c
}

func (r *R) varyAt(v V, depth int) V {
	switch t := v.(type) {
	case []V:
		if len(t) > 0 && r.p(70) && depth > 0 {
			i := r.n(len(t))
			t[i] = r.varyAt(t[i], depth/2)
			return t
		}
		switch {
		case len(t) == 0 || r.p(40):
			return append(t, pick[V](r, nil, 1.0, "a", []V{2.0}, "z"))
		case r.p(50):
			return t[:len(t)-1]
		}
		i, j := r.n(len(t)), r.n(len(t))
		t[i], t[j] = t[j], t[i]
		return t
	case map[string]V:
		if ks := sortedKeys(t); len(ks) > 0 {
			k := ks[r.n(len(ks))]
			if r.p(15) {
				delete(t, k)
			} else {
				t[k] = r.varyAt(t[k], depth/2)
			}
			return t
		}
		t["a"] = 1.0
		return t
	case float64:
		return pick[V](r, t+1, t-1, t+1, nil, "1")
	case string:
		return pick[V](r, t+"a", "a"+t, "", 1.0)
	}
	return pick[V](r, 1.0, "a", true, []V{})
}

func copyVal(v V) V {
	switch t := v.(type) {
	case []V:
		c := make([]V, len(t))
		for i, e := range t {
			c[i] = copyVal(e)
		}
		return c
	case map[string]V:
		c := make(map[string]V, len(t))
		for k, e := range t {
			c[k] = copyVal(e)
		}
		return c
	}
	return v
}

// another is a further document of a session.
func (x *sess) another(max int) V {
	r := x.r
	if len(x.docs) > 0 && r.p(45) {
		return r.vary(x.docs[r.n(len(x.docs))])
	}
	if r.p(3) {
		v, _ := sparse(r, r.in(20, 150))
		return v
	}
	return r.aDoc(max)
}

// aDoc is a document for sessions.
func (r *R) aDoc(max int) V {
	for {
		var d V
		switch r.n(8) {
		case 6, 7:
			d = map[string]V{"s": []V{"b", "d", "a", "c", "a"}[:r.in(2, 5)], "n": []V{3.0, 1.0, 2.5, -1.0, 3.0}[:r.in(2, 5)],
				"m": []V{2.0, "b", nil, []V{3.0, 1.0}, true}[:r.in(1, 5)], "b": []V{[]V{"z", "y"}, []V{2.0, 1.0}}, "c": "y x"}

		case 0:
			d = flat(r.n(8))
		case 1:
			d = map[string]V{"a": flat(r.n(6)), "b": []V{flat(2), map[string]V{"a": 1.0}, "abc"}, "c": "x"}
		case 2:
			d = []V{[]V{}, map[string]V{}, []V{1.0, 2.0}, map[string]V{"a": []V{}}, "a", 1.0, nil}[:r.in(0, 7)]
		default:
			d = r.anyDoc()
		}
		if docSize(d) <= max {
			return d
		}
	}
}

// aPath is a path for a document of the session.
func (x *sess) aPath() string {
	r := x.r
	if r.p(40) {
		return reusePaths[r.n(len(reusePaths))]
	}
	if r.p(20) {
		return r.usingPath()
	}
	if r.p(20) {
		return r.rootPath(x.docs[r.n(len(x.docs))])
	}
	if r.p(12) {
		return "$" + pick(r, "[*]", "", ".*", "..", "..") + "[?(" + badExprs[r.n(len(badExprs))] + ")]"
	}
	return r.pathGen(x.docs[r.n(len(x.docs))], allSteps).path(r.in(1, 4))
}

// change alters a document in place, as its owner may between evaluations.
func (r *R) change(v V) {
	nodes := nodesOf(v, nil)
	for try := 0; try < 5; try++ {
		n := nodes[r.n(len(nodes))]
		switch n := n.(type) {
		case []V:
			if len(n) > 0 {
				n[r.n(len(n))] = pick[V](r, 0.0, 1.0, "new", nil, []V{1.0}, map[string]V{"a": 1.0}, true)
				return
			}
		case map[string]V:
			switch ks := sortedKeys(n); {
			case len(ks) == 0 || r.p(50):
				n[pick(r, "a", "b", "new")] = pick[V](r, 0.0, 1.0, "new", []V{1.0, 2.0})
			case r.p(50):
				delete(n, ks[r.n(len(ks))])
			default:
				n[ks[r.n(len(ks))]] = pick[V](r, 0.0, "changed", []V{}, nil)
			}
			return
		}
	}
}

// reuseSession: one caller, handles reused on several documents in any order, results overwritten and looked at again.
func (s *shard) reuseSession() {
	x := s.session()
	if x == nil {
		return
	}
	r := x.r
	for i := r.in(1, 3); i > 0; i-- {
		x.addDoc(x.another(40))
	}
	for i := r.in(1, 4); i > 0; i-- {
		x.compile(x.aPath())
	}
	if len(x.hs) == 0 {
		x.compile("$[*]")
	}
	for i := r.in(6, 24); i > 0; i-- {
		if len(x.hs) == 0 {
			return
		}
		h, d := r.n(len(x.hs)), r.n(len(x.docs))
		oneOf := func() int {
			if len(x.hist) == 0 {
				return 0
			}
			return x.hist[r.n(len(x.hist))]
		}
		switch r.n(14) {
		case 0:
			x.look(d)
		case 1:
			x.heldLook(oneOf())
		case 2, 3:
			x.scribble(oneOf())
		case 4:
			x.text(h)
			x.compile(x.texts[h])
		case 5:
			x.compile(x.aPath())
		case 6:
			c := oneOf()
			if h := x.held[c]; h != nil && x.fresh(c) {
				x.where(c)
			}
		case 7:
			// the owner changes the document: what was selected from it before is no longer compared
			r.change(x.docs[d])
			x.s.event("doc", fmt.Sprintf(`"d":%d,"v":%d`, d+1, x.s.docNo(x.docs[d])))
			var keep []int
			for _, c := range x.hist {
				if x.held[c].d != d {
					keep = append(keep, c)
				} else {
					delete(x.held, c)
				}
			}
			x.hist = keep
		default:
			c, o := x.eval(h, d)
			if o.R == "ok" && r.p(40) {
				x.where(c)
			}
			if r.p(25) {
				x.scribble(c)
			}
		}
	}
	for d := range x.docs {
		x.look(d)
	}
	for _, c := range x.hist {
		x.heldLook(c)
	}
	for h := range x.hs {
		x.text(h)
	}
}

// fresh: has the caller left the list as it was?
func (x *sess) fresh(c int) bool {
	for _, v := range x.held[c].vs {
		if t, ok := v.(string); ok && strings.HasPrefix(t, "junk") {
			return false
		}
	}
	return true
}

// concurrentSession: several callers at once, on the same handles and documents.
func (s *shard) concurrentSession() {
	x := s.session()
	if x == nil {
		return
	}
	r := x.r
	nd := r.in(1, 3)
	for i := 0; i < nd; i++ {
		x.addDoc(x.another(40))
	}
	if r.p(30) {
		x.addDoc(flat(r.in(20, 200))) // slow
	}
	nh := r.in(1, 4)
	for i := 0; i < nh; i++ {
		if i == 0 && r.p(30) {
			x.compile(pick(r, "$..[?(@)]", "$[?(@ in [1,2,3,5,8,13,21])]", "$..*", "$[*][*]", "$[?(@ =~ /a|b/ || true)]", "$[?(nosuch())]", "$[?(@ =~ /s/)]", "$..[?(@ =~ /a/)]"))
			continue
		}
		x.compile(x.aPath())
	}
	if len(x.hs) == 0 {
		x.compile("$..*")
		if len(x.hs) == 0 {
			return
		}
	}
	nw := r.in(2, 8)
	n := r.in(2, 8)
	if r.p(4) { // a crowd
		nw, n = r.in(20, 150), r.in(1, 3)
	}
	seeds := make([]uint64, nw)
	texts := make([]string, 2*nw)
	for i := range seeds {
		seeds[i] = r.u64()
	}
	for i := range texts {
		texts[i] = x.aPath()
	}
	same := r.p(40) // all evaluate the same handle on the same document first
	var start, wg sync.WaitGroup
	start.Add(1)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		w := w
		go func() {
			defer wg.Done()
			q := newR(seeds[w])
			start.Wait()
			for i := 0; i < n; i++ {
				x.mu.Lock()
				h, d := q.n(len(x.hs)), q.n(len(x.docs))
				x.mu.Unlock()
				if same && i == 0 {
					h, d = 0, 0
				}
				if w < 2 && i%3 == 1 {
					x.compile(texts[(i/3+w*3)%len(texts)])
					continue
				}
				_, o := x.eval(h, d)
				if o.R == "ok" && q.p(30) {
					// the caller's own list: a race if anyone else looks at it
					for i := range o.Vs {
						o.Vs[i] = nil
					}
					full := o.Vs[:cap(o.Vs)]
					for i := range full {
						full[i] = nil
					}
					x.mu.Lock()
					x.held[x.idOf(o)].vs = o.Vs
					x.s.event("scribble", fmt.Sprintf(`"c":%d,"vs":%s`, x.idOf(o), valsJSON(o.Vs)))
					x.mu.Unlock()
				}
				if q.p(30) {
					runtime.Gosched()
				}
			}
		}()
	}
	start.Done()
	wg.Wait()
	for d := range x.docs {
		x.look(d)
	}
	for _, c := range x.hist {
		x.heldLook(c)
	}
	for h := range x.hs {
		x.text(h)
	}
	x.quiet()
}

// idOf finds the call that a list came from.
func (x *sess) idOf(o outcome) int {
	for i := len(x.hist) - 1; i >= 0; i-- {
		r := x.held[x.hist[i]]
		if len(r.vs) == len(o.Vs) && cap(r.vs) == cap(o.Vs) && reflect.ValueOf(r.vs).Pointer() == reflect.ValueOf(o.Vs).Pointer() {
			return x.hist[i]
		}
	}
	return x.hist[len(x.hist)-1]
}

var (
	baseline = 2 // main and watch
	leaks    int
	stacks   = make([]byte, 1<<18)
)

// blocked looks, at once after an evaluation has returned, at the goroutines there are, and counts those of jsonpath
// that wait for another to take or give something: one that is merely about to end waits for nothing.
// It looks several times, since those that are still at work wait only part of their time.
func blocked() int {
	max := 0
	for i := 0; i < 8; i++ {
		if runtime.NumGoroutine() <= baseline {
			break
		}
		n := 0
		for _, g := range bytes.Split(stacks[:runtime.Stack(stacks, true)], []byte("\n\n")) {
			head, rest, _ := bytes.Cut(g, []byte("\n"))
			if (bytes.Contains(head, []byte("[chan ")) || bytes.Contains(head, []byte("[select"))) && bytes.Contains(rest, []byte("forsyth/jsonpath")) && !bytes.Contains(rest, []byte("main.")) {
				n++
			}
		}
		if n > max {
			max = n
		}
		runtime.Gosched()
	}
	return max
}

// quiet records how many goroutines have been left behind, once they have had time to end.
func (x *sess) quiet() {
	limit := 5 * time.Second
	if leaks > 3 {
		limit = 100 * time.Millisecond
	}
	n := runtime.NumGoroutine()
	for t0 := time.Now(); n > baseline; n = runtime.NumGoroutine() {
		e := time.Since(t0)
		if e > limit {
			break
		}
		if e < time.Millisecond {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	left := n - baseline
	if left < 0 {
		left = 0
	}
	if left > 0 {
		if leaks++; leaks > 20 {
			x.s.budget = x.s.n // enough has been seen
		}
		baseline = n
	}
	if left < x.busy {
		left = x.busy
	}
	x.busy = 0
	x.s.event("quiet", fmt.Sprintf(`"n":%d`, left))
}

// quietSession: evaluations that succeed, fail at any point, are nested or abandoned part way; nothing is left.
func (s *shard) quietSession() {
	x := s.session()
	if x == nil {
		return
	}
	r := x.r
	// candidates of which one or a few make an evaluation fail
	n := pick(r, r.n(4), r.in(1, 12), r.in(1, 40))
	if r.p(4) {
		n = r.in(40, 400)
	}
	kids := make([]V, n)
	same := r.p(30)
	dull := pick[V](r, nil, "s", 1.0, true, "", 0.0)
	for i := range kids {
		kids[i] = "s" + strconv.Itoa(i)
		if same {
			kids[i] = dull
		}
	}
	for i := r.n(3); i > 0 && n > 0; i-- {
		kids[r.n(n)] = pick[V](r, 1.0, nil, true, []V{}, map[string]V{})
	}
	obj := map[string]V{}
	for i, k := range kids {
		obj["m"+strconv.Itoa(i)] = k
	}
	x.addDoc(kids)
	x.addDoc(obj)
	x.addDoc([]V{kids, obj, []V{}, map[string]V{}, "s", nil})
	x.addDoc(r.aDoc(40))
	bad := func() string {
		switch r.n(4) {
		case 0:
			return badExprs[r.n(len(badExprs))]
		case 1:
			return "@ =~ /s/"
		case 2:
			return "@.length && nosuch()"
		default:
			return "@ in $[0]"
		}
	}
	step := func() string {
		switch r.n(9) {
		case 0:
			return "[*]"
		case 1:
			return ".*"
		case 2:
			return "..*"
		case 3:
			return fmt.Sprintf("[%d:%d]", r.n(4), r.n(10))
		case 4:
			return fmt.Sprintf("..[?(%s)]", bad())
		case 5:
			return fmt.Sprintf("[(%s)]", bad())
		case 6:
			return fmt.Sprintf("..[(%s)]", bad())
		case 7:
			return "[0,1,-1]"
		default:
			return fmt.Sprintf("[?(%s)]", bad())
		}
	}
	x.alone = true
	for i := r.in(3, 8); i > 0; i-- {
		t := "$"
		nest := 0
		for j := r.in(1, 4); j > 0; j-- {
			st := step()
			if strings.HasPrefix(st, "..") {
				if nest++; nest > 2 {
					continue
				}
			}
			t += st
		}
		h := x.compile(t)
		if h < 0 {
			continue
		}
		for j := r.in(1, 3); j > 0; j-- {
			x.eval(h, r.n(len(x.docs)))
			if r.p(60) {
				x.quiet()
			}
		}
	}
	if r.p(20) {
		// at once
		x.alone = false
		var wg sync.WaitGroup
		for h := range x.hs {
			wg.Add(1)
			h, d := h, r.n(len(x.docs))
			go func() { defer wg.Done(); x.eval(h, d) }()
		}
		wg.Wait()
	}
	x.quiet()
}

// keepSession: of many documents, each evaluated and then dropped with its results, hardly any is still reachable.
func (s *shard) keepSession() {
	x := s.session()
	if x == nil {
		return
	}
	r := x.r
	var roots, parts atomic.Int64
	fresh := func(i int) V {
		a := make([]V, 8, 12)
		for j := range a {
			b := make([]V, 3, 5)
			b[0], b[2] = float64(j), "s"
			runtime.SetFinalizer(&b[0], func(*V) { parts.Add(1) })
			a[j] = map[string]V{"a": float64(i), "k": "k" + strconv.Itoa(i), "n": b}
		}
		runtime.SetFinalizer(&a[0], func(*V) { roots.Add(1) })
		if i%2 == 0 {
			return map[string]V{"a": a, "n": a[0], "k": "k"}
		}
		return a
	}
	for n := r.in(6, 9); n > 0; n-- {
		t := pick(r, "$", "$.*", "$..*", "$[1]", "$[*].a", "$..a", "$[?(@.a>3)]", "$..[?(@.length>2)]", "$[?(@.k=~/k1/)]", "$[?(nosuch())]", "$..[?(@.a in 3)]", "$[(@.length)]", "$[1:3].n[?(@=='s')]", "$[?(@.n==$[0].n)]", "$..[?(keys(@)==1||@.n[0])]",
			"$[0,0,1]['a','n']", "$..[(@.length-1)]", "$[?(@ in $)]", "$[?($.length+@.a)]", "$[?(max($[0].n)<@.a)]", "$[(max(0,$[0].a-$[1].a))]", "$[?([@,$]==[$,@])]")
		if r.p(60) { // a function, on every kind of value
			f := pick(r, "abs", "avg", "ceil", "floor", "keys", "keys", "length", "max", "min", "prod", "sum", "to_number", "contains", "starts_with", "ends_with", "tokenize")
			x := pick(r, "@", "@", "@.n", "@.k", "$")
			if f > "c" && (f == "contains" || strings.HasSuffix(f, "_with") || f == "tokenize") {
				x += pick(r, ",'k'", ",@", ",@.k", ",3")
			}
			t = pick(r, "$..", "$", "$.*", "$..*") + "[?(" + f + "(" + x + ")" + pick(r, "", ".length>1", "==3", "!=null") + ")]"
		}
		h := x.compile(t)
		if h < 0 {
			continue
		}
		of := r.in(100, 160)
		roots.Store(0)
		parts.Store(0)
		for i := 0; i < of; i++ {
			evalOn(x.hs[h], fresh(i))
		}
		left := of
		for i := 0; i < 100 && left*4 > of; i++ {
			runtime.GC()
			time.Sleep(time.Duration(i) * time.Millisecond)
			left = of - int(roots.Load())
			if p := of - int(parts.Load())/8; p > left {
				left = p
			}
		}
		x.s.event("kept", fmt.Sprintf(`"n":%d,"of":%d`, left, of))
		x.quiet()
	}
}

// replaySessions carries out the sessions that TLC has generated from spec/SessionGen.tla, on documents and paths of
// its own choice.
func (s *shard) replaySessions(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	for i, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		if s.mine(i) {
			s.replay(strings.Fields(line))
		}
	}
	return nil
}

func (s *shard) replay(ops []string) {
	x := s.session()
	if x == nil {
		return
	}
	r := x.r
	for d := 0; d < 2; d++ {
		x.addDoc(x.another(24))
	}
	for h := 0; h < 2; h++ {
		for try := 0; len(x.hs) <= h && try < 10; try++ {
			x.compile(x.aPath())
		}
		if len(x.hs) <= h {
			return
		}
	}
	type flight struct {
		o    chan outcome
		d, c int
	}
	running := map[int]flight{}
	made := 0
	start := func(h, d int) {
		made++
		c := made
		x.s.event("begin", fmt.Sprintf(`"c":%d,"h":%d,"d":%d`, c, h+1, d+1))
		f := flight{make(chan outcome, 1), d, c}
		running[c] = f
		p, doc := x.hs[h], x.docs[d]
		go func() { f.o <- evalOn(p, doc) }()
	}
	end := func(c int) {
		f, ok := running[c]
		if !ok {
			return
		}
		delete(running, c)
		o := <-f.o
		x.s.event("end", fmt.Sprintf(`"c":%d,"out":%s`, c, o.json()))
		if o.R == "ok" {
			x.held[c] = &heldRes{f.d, o.Vs}
		}
	}
	for _, op := range ops {
		n, _ := strconv.Atoi(op[1:])
		switch op[0] {
		case 'b':
			start(n/10-1, n%10-1)
		case 'e':
			end(n)
		case 'w':
			if h := x.held[n]; h != nil {
				for i := range h.vs {
					h.vs[i] = "junk" + strconv.Itoa(i)
				}
				x.s.event("scribble", fmt.Sprintf(`"c":%d,"vs":%s`, n, valsJSON(h.vs)))
			}
		case 'a':
			if h := x.held[n]; h != nil {
				h.vs = append(h.vs, "junk")
				x.s.event("scribble", fmt.Sprintf(`"c":%d,"vs":%s`, n, valsJSON(h.vs)))
			}
		case 'd':
			d := n - 1
			r.change(x.docs[d])
			x.s.event("doc", fmt.Sprintf(`"d":%d,"v":%d`, d+1, x.s.docNo(x.docs[d])))
			for c, h := range x.held {
				if h.d == d {
					delete(x.held, c)
				}
			}
		case 'k':
			p, panicked := compileText(x.texts[n-1])
			if panicked {
				x.s.event("robust", `"out":{"r":"panic"}`)
				return
			}
			x.s.event("compile", fmt.Sprintf(`"h":%d,"p":%s,"ok":%v`, n, bytesJSON(x.texts[n-1]), p != nil))
			if p == nil {
				return
			}
			x.hs[n-1] = p
		}
	}
	for c := 1; c <= made; c++ {
		end(c)
	}
	for d := range x.docs {
		x.look(d)
	}
	for c := 1; c <= made; c++ {
		x.heldLook(c)
		if x.held[c] != nil && x.fresh(c) {
			x.where(c)
		}
	}
	for h := range x.hs {
		x.text(h)
	}
	if s.prop == "C07" || s.prop == "C08" {
		x.quiet()
	}
}
