package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

func init() {
	props["C24"] = func(s *shard) { s.cliCases(true) }
	props["C25"] = func(s *shard) { s.cliCases(false) }
}

// cliItem is a piece of input: the text of a JSON value, or malformed text.
type cliItem struct {
	text string
	bad  bool
}
type cliFile struct {
	missing bool
	dir     bool // a directory: it can be opened but not read
	items   []cliItem
	text    string // the whole, items with what is between them
	name    string
}
type cliRun struct {
	path  string
	usage bool // no path at all
	line  bool
	files []*cliFile
	stdin bool   // the only file is standard input
	pipe  bool   // standard input is a pipe, not a file
	sink  string // "all", "full", "limit"
	limit int    // in blocks of 512 bytes
	fds   int    // how many files it may have open at once (0: as usual)
	names int    // how files are named
	flag  string // how -l is given, if at all
}

// spell writes v as JSON text in some layout.
func (r *R) spell(v V, ws int, nl bool) string {
	var sb strings.Builder
	space := func() {
		if r.p(ws) {
			w := pick(r, " ", "  ", "\t", " \t ", "\r", "\n", "\n\n", "\r\n", " \n ")
			if !nl && strings.ContainsAny(w, "\r\n") {
				w = " "
			}
			sb.WriteString(w)
		}
	}
	str := func(t string) {
		sb.WriteByte('"')
		for len(t) > 0 {
			c, w := utf8.DecodeRuneInString(t)
			raw := t[:w]
			t = t[w:]
			switch {
			case c == '"' || c == '\\':
				sb.WriteString("\\" + raw)
			case c == '\n' && r.p(50):
				sb.WriteString(`\n`)
			case c < 32 || r.p(3):
				if c >= 0x10000 {
					c -= 0x10000
					fmt.Fprintf(&sb, `\u%04x\u%04X`, 0xd800+c>>10, 0xdc00+c&0x3ff)
				} else {
					fmt.Fprintf(&sb, `\u%04x`, c)
				}
			case c == '/' && r.p(30):
				sb.WriteString(`\/`)
			default:
				sb.WriteString(raw)
			}
		}
		sb.WriteByte('"')
	}
	var put func(v V)
	put = func(v V) {
		switch v := v.(type) {
		case nil:
			sb.WriteString("null")
		case bool:
			sb.WriteString(strconv.FormatBool(v))
		case float64:
			sb.WriteString(strconv.FormatFloat(v, pick(r, byte('g'), 'g', 'e', 'E'), -1, 64))
		case string:
			str(v)
		case []V:
			sb.WriteByte('[')
			for i, x := range v {
				if i > 0 {
					sb.WriteByte(',')
				}
				space()
				put(x)
				space()
			}
			space()
			sb.WriteByte(']')
		case map[string]V:
			sb.WriteByte('{')
			for i, k := range sortedKeys(v) {
				if i > 0 {
					sb.WriteByte(',')
				}
				space()
				str(k)
				space()
				sb.WriteByte(':')
				space()
				put(v[k])
				space()
			}
			space()
			sb.WriteByte('}')
		}
	}
	put(v)
	return sb.String()
}

var malformed = []string{"[1,2", "{\"a\":1", "{\"a\"", "[1,]", "{\"a\":1,}", "tru", "nul", "\"abc", "nan", "'a'", "{a:1}", "[1 2]", "{\"a\" 1}", "1e999", "-", "+1", ".5", "[", "{", "\"\\x\"", "#", "]", "}", ",", ":", "[1]]", "{\"a\":}", "\"\\u12\"", "[\"a\nb\"]", "\x00", "$", "[01]"}

// what a decoder of successive values reads as a value first, and then fails
var valueThenBad = map[string]string{"[1]]": "[1]"}

// deepText is nested more deeply than encoding/json accepts.
var deepText = strings.Repeat("[", 10500) + strings.Repeat("]", 10500)

func (s *shard) cliCases(good bool) {
	out, err := filepath.Abs(s.out)
	if err == nil {
		out, err = os.MkdirTemp(out, "cli")
	}
	dir := out
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	s.cliSizes(dir, good)
	s.cliMany(dir, good)
	for s.more() {
		s.cliCase(dir, good)
	}
}

// join puts items into a file with something between them.
func (r *R) join(f *cliFile, line bool) {
	var sb strings.Builder
	for i, it := range f.items {
		sb.WriteString(it.text)
		last := i == len(f.items)-1
		switch {
		case line && last && it.text != "" && r.p(25): // no newline at the end
		case line:
			sb.WriteString(pick(r, "\n", "\n", "\n", "\r\n"))
		case it.bad: // a string left open must not go on
			sb.WriteString("\n")
		case last && r.p(40):
		case !it.bad && !last && !f.items[i+1].bad && strings.ContainsAny(it.text[len(it.text)-1:], "]}\"") && r.p(20): // nothing between
		default:
			sb.WriteString(pick(r, "\n", " ", "\n\n", "\t", "\r\n", " \n "))
		}
	}
	f.text = sb.String()
}

func (s *shard) cliCase(dir string, good bool) {
	r := newR(s.r.u64())
	c := &cliRun{line: r.p(50), sink: "all", stdin: r.p(50), pipe: r.p(50)}
	shape := r.anyDoc()
	for docSize(shape) > 60 {
		shape = r.anyDoc()
	}
	switch r.n(6) {
	case 0:
		c.path = "$" + pick(r, "", ".a", "[0]", "[*]", "..*", "[1:]", "..a", "[?(@)]", "['a','b']", "[-1]", "..[?(@.a)]", "[(@.length-1)]", "[?(@ > 1)]")
	default:
		c.path = r.pathGen(shape, allSteps).path(r.in(1, 3))
	}
	// what fails, if anything
	why := "none"
	if !good {
		why = pick(r, "path", "usage", "missing", "bad", "bad", "bad", "eval", "eval", "eval", "full", "limit", "none", "blank", "dir")
		if why == "blank" && !c.line {
			why = "bad"
		}
	}
	nf := 1
	if !c.stdin || why == "missing" || why == "dir" {
		c.stdin = false
		nf = r.in(1, 4)
	}
	failAt := r.n(nf)
	switch why {
	case "path":
		c.path = pick(r, "", "a", "$.", "$[", "$[?(", "$x", "$['a", "$[1,*]", "$.a b", "$[?(@ =~ /(/)]", c.path+"]", c.path+".", "$[99999999999999999999]")
	case "usage":
		c.usage = true
	case "eval":
		c.path = "$" + pick(r, "", "[*]", "..", ".a") + "[?(" + pick(r, "nosuch(@)", "@ in 5", "@ in $", "@ =~ /a/", "@ =~ 'a'", "'a' =~ @", "contains(@)", "@ == 1 || @ in @", "abs(1,2)", "1 in @", "'a' =~ '('", "@.a in @.b") + ")]"
	case "full":
		c.sink = "full"
	case "limit":
		c.sink, c.limit = "limit", r.in(1, 6)
	}
	val := func() V {
		switch r.n(4) {
		case 0:
			return shape
		case 1:
			d := r.anyDoc()
			if docSize(d) < 60 {
				return d
			}
			return nil
		case 2:
			return pick[V](r, nil, true, 0.0, "s", []V{}, map[string]V{}, []V{1.0, 2.0}, map[string]V{"a": 1.0}, []V{"a", "b"}, map[string]V{"a": []V{"x", "a"}, "b": []V{1.0}})
		default:
			nodes := nodesOf(shape, nil)
			return nodes[r.n(len(nodes))]
		}
	}
	ws := pick(r, 0, 0, 10, 40)
	for i := 0; i < nf; i++ {
		f := &cliFile{}
		n := pick(r, 0, 1, 1, 2, 3, 5, 12)
		if c.sink == "limit" {
			n = pick(r, 1, 5, 20, 60)
		}
		if r.p(2) {
			n = r.in(50, 300)
		}
		for j := 0; j < n; j++ {
			f.items = append(f.items, cliItem{text: r.spell(val(), ws, !c.line)})
		}
		if i == failAt {
			switch why {
			case "missing":
				f.missing = true
			case "dir":
				f.dir = true
				f.items = []cliItem{{bad: true}}
			case "bad", "blank":
				t := malformed[r.n(len(malformed))]
				if r.p(4) {
					t = deepText
				}
				if why == "blank" {
					t = pick(r, "", " ", "\t", "1 2", "{} {}", "[1] x", "1,2")
				}
				if c.line {
					t = strings.ReplaceAll(t, "\n", "\t")
				}
				k := r.n(len(f.items) + 1)
				bad := []cliItem{{text: t, bad: true}}
				if v := valueThenBad[t]; v != "" && !c.line {
					bad = []cliItem{{text: v}, {text: t[len(v):], bad: true}}
				}
				f.items = append(f.items[:k:k], append(bad, f.items[k:]...)...)
			}
		}
		r.join(f, c.line)
		if r.p(10) && !f.dir && !c.line {
			f.text = pick(r, " ", "\n", "\n\n\t") + f.text
		}
		c.files = append(c.files, f)
	}
	c.names = r.n(8)
	if r.p(20) {
		c.flag = pick(r, "--l", "-l=true", "-l=1", "--l=true")
		if !c.line {
			c.flag = pick(r, "-l=false", "--l=false", "--", "-l=0")
		}
	}
	// a file named more than once
	if !c.stdin && r.p(25) {
		for k := r.in(1, 3); k > 0; k-- {
			f := c.files[r.n(len(c.files))]
			at := r.n(len(c.files) + 1)
			c.files = append(c.files[:at:at], append([]*cliFile{f}, c.files[at:]...)...)
		}
	}
	s.cli(dir, c)
}

// cliMany: more files than can be open at once.
func (s *shard) cliMany(dir string, good bool) {
	for k := 0; k < 3; k++ {
		r := newR(s.r.u64())
		c := &cliRun{line: r.p(50), sink: "all", path: pick(r, "$", "$[*]", "$[0]", "$[?(@)]", "$[1:]"), fds: pick(r, 14, 20, 40)}
		n := c.fds + r.in(5, 90)
		shared := &cliFile{items: []cliItem{{text: `[7,8]`}}}
		r.join(shared, c.line)
		for i := 0; i < n; i++ {
			f := &cliFile{}
			for j := r.n(3); j > 0; j-- {
				f.items = append(f.items, cliItem{text: fmt.Sprintf("[%d,%d]", i, j)})
			}
			if !good && i == n-1 && k < 2 {
				if f.missing = k == 1; k == 0 {
					f.items = append(f.items, cliItem{text: pick(r, "[1,", "x", "{"), bad: true})
				}
			}
			r.join(f, c.line)
			if r.p(10) && !f.missing && i < n-1 {
				f = shared
			}
			c.files = append(c.files, f)
		}
		s.cli(dir, c)
	}
}

// cliSizes: sizes about those of buffers, and far beyond.
func (s *shard) cliSizes(dir string, good bool) {
	k := 0
	sizes := []int{1, 100, 511, 1000, 4000, 4095, 4096, 4097, 8191, 8192, 20000, 32768, 65000, 65534, 65535, 65536, 65537, 70000, 131072, 300000, 1100000, 4500000, 17000000}
	if !s.quick() {
		sizes = append(sizes, 65533, 65538, 262144, 524288, 1048575, 1048576, 1048577, 4194304, 10000000, 33600000, 68000000, 136000000)
	}
	for _, n := range sizes {
		for _, line := range []bool{false, true} {
			for v := 0; v < 6; v++ {
				k++
				r := newR(s.r.u64())
				if !s.mine(k) || n > 2000000 && v != 1 && v != 5 {
					continue
				}
				c := &cliRun{line: line, sink: "all", stdin: true, pipe: v%2 == 0, path: "$"}
				f := &cliFile{}
				add := func(t string) { f.items = append(f.items, cliItem{text: t}) }
				pad := strings.Repeat(" ", n)
				switch v {
				case 0: // a string of that size, before and after others
					m := n
					if m > 140000 {
						continue
					}
					add(`["a"]`)
					add(`["` + strings.Repeat("x", m) + `"]`)
					add(`{"a":1}`)
					c.path = pick(r, "$", "$[0]", "$..*")
				case 1: // much white space within
					add(`[1,` + pad + `2]`)
					add(`[3` + pad + `]`)
					add(`[4]`)
					c.path = "$[*]"
				case 2: // many values
					m := n
					if m > 3000 {
						m = 3000
					}
					for i := 0; i < m; i++ {
						add(fmt.Sprintf(`[%d,"%d"]`, i%50, i%7))
					}
					c.path = pick(r, "$[0]", "$", "$[?(@ > 10)]", "$[-1]")
				case 3: // a line of about that length, to the byte
					for _, d := range []int{-3, -2, -1, 0, 1} {
						if n+d-4 >= 0 {
							add(`[` + strings.Repeat(" ", n+d-3) + `7]`)
						}
					}
					c.path = "$[0]"
				case 4: // an array of that size
					m := n
					if m > 5000 {
						m = 5000
					}
					add("[" + strings.TrimSuffix(strings.Repeat("1,", m), ",") + "]")
					add("[5]")
					c.path = pick(r, "$[*]", "$[::2]", "$.length", "$[-1]", "$[?(@ == 5)]")
				case 5: // several files
					c.stdin = false
					add(`[1,` + pad + `2]`)
					g := &cliFile{items: []cliItem{{text: `[3]`}, {text: pad + `[4]`}}}
					r.join(g, line)
					c.files = append(c.files, g)
					c.path = "$[*]"
				}
				r.join(f, line)
				c.files = append(c.files, f)
				if !good {
					switch r.n(4) {
					case 0:
						c.sink = "full"
					case 1:
						c.sink, c.limit = "limit", r.in(1, 2+n/400)
					default:
						i := r.n(len(f.items) + 1)
						f.items = append(f.items[:i:i], append([]cliItem{{text: pick(r, "[1,"+pad, pad+"x", `{"a":`+pad+`}`), bad: true}}, f.items[i:]...)...)
						r.join(f, line)
					}
				}
				s.cli(dir, c)
			}
		}
	}
}

// cli runs the command and records what it did.
func (s *shard) cli(dir string, c *cliRun) {
	if !s.begin() {
		return
	}
	var args []string
	if c.flag != "" {
		args = append(args, c.flag)
	} else if c.line {
		args = append(args, "-l")
	}
	if !c.usage {
		args = append(args, c.path)
	}
	ctx, cancel := context.WithTimeout(context.Background(), s.limit*3/4)
	defer cancel()
	var stdin *bytes.Reader
	var src strings.Builder
	var made []string
	for i, f := range c.files {
		again := f.name != ""
		if !again {
			no := strconv.Itoa(i)
			if f.name = filepath.Join(dir, "in"+no); !c.stdin {
				switch c.names {
				case 0:
					f.name = filepath.Join(dir, "in "+no+" 'x'")
				case 1: // as seen from where the command runs
					f.name = pick(newR(uint64(i)), "", "./") + "in" + no
				case 2:
					f.name = "-l" + no
				case 3:
					f.name = filepath.Join(dir, "é\n%s"+no)
				case 4:
					f.name = "$" + no
				}
			}
		}
		name := f.name
		onDisk := name
		if !filepath.IsAbs(name) {
			onDisk = filepath.Join(dir, name)
		}
		switch {
		case again:
			if f.missing {
				name += "-missing"
			}
		case f.missing:
			name += "-missing"
		case f.dir:
			os.Mkdir(onDisk, 0o755)
			made = append(made, onDisk)
		default:
			if err := os.WriteFile(onDisk, []byte(f.text), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			made = append(made, onDisk)
		}
		if c.stdin {
			stdin = bytes.NewReader([]byte(f.text))
		} else if !c.usage {
			args = append(args, name)
		}
		if i > 0 {
			src.WriteByte(',')
		}
		fmt.Fprintf(&src, `{"missing":%v,"items":[`, f.missing)
		for j, it := range f.items {
			if j > 0 {
				src.WriteByte(',')
			}
			var v V
			if it.bad || json.Unmarshal([]byte(it.text), &v) != nil {
				src.WriteString(`{"k":"bad"}`)
			} else {
				fmt.Fprintf(&src, `{"k":"val","d":%d}`, s.docNo(v))
			}
		}
		src.WriteString("]}")
	}
	var cmd *exec.Cmd
	outName := filepath.Join(dir, "out")
	if c.fds > 0 {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", "ulimit -n " + strconv.Itoa(c.fds) + "; exec \"$0\" \"$@\"", s.jpath}, args...)...)
	} else if c.sink == "limit" {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", "ulimit -f " + strconv.Itoa(c.limit) + "; exec \"$0\" \"$@\"", s.jpath}, args...)...)
	} else {
		cmd = exec.CommandContext(ctx, s.jpath, args...)
	}
	cmd.Dir = dir
	var stdout, stderr bytes.Buffer
	cmd.Stderr = &stderr
	var of *os.File
	switch c.sink {
	case "all":
		cmd.Stdout = &stdout
	case "full":
		of, _ = os.OpenFile("/dev/full", os.O_WRONLY, 0)
		cmd.Stdout = of
	case "limit":
		of, _ = os.Create(outName)
		cmd.Stdout = of
	}
	if stdin != nil {
		if c.pipe {
			cmd.Stdin = stdin
		} else {
			f, err := os.Open(filepath.Join(dir, "in0"))
			if err == nil {
				cmd.Stdin = f
				defer f.Close()
			}
		}
	}
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	if of != nil {
		of.Close()
	}
	hung := ctx.Err() != nil
	code := 0
	if err != nil {
		if cmd.ProcessState == nil {
			fmt.Fprintln(os.Stderr, "cannot run jpath:", err)
			os.Exit(3)
		}
		if code = cmd.ProcessState.ExitCode(); code < 0 {
			code = 255
		}
	}
	got := stdout.Bytes()
	if c.sink == "limit" {
		got, _ = os.ReadFile(outName)
		os.Remove(outName)
	}
	for _, f := range made {
		os.Remove(f)
	}
	if hung {
		s.event("robust", `"out":{"r":"hang"}`)
		return
	}
	lists, tail := readLists(got, c.line)
	if c.sink == "limit" && len(got) > 0 && got[len(got)-1] != '\n' {
		tail = true
	}
	if s.show {
		for _, f := range c.files {
			fmt.Printf("input %.3000q\n", f.text)
		}
	}
	s.event("cli", fmt.Sprintf(`"line":%v,"usage":%v,"p":%s,"src":[%s],"sink":%q,"code":%d,"msg":%v,"lists":[%s],"tail":%v`,
		c.line, c.usage, bytesJSON(c.path), src.String(), c.sink, code, len(bytes.TrimSpace(stderr.Bytes())) > 0, strings.Join(lists, ","), tail))
	if s.show {
		fmt.Printf("%q code %d\nstderr %.300s\nstdout %.2000s\n", args, code, stderr.String(), got)
	}
}

// readLists takes the output apart: the result lists, whether each is laid out as it should be, and whether
// anything else is there.
func readLists(b []byte, line bool) (lists []string, tail bool) {
	for len(b) > 0 {
		start := 0
		for start < len(b) && strings.IndexByte(" \t\r\n", b[start]) >= 0 {
			start++
		}
		if start == len(b) {
			return lists, tail || line
		}
		dec := json.NewDecoder(bytes.NewReader(b[start:]))
		var v []V
		if b[start] != '[' || dec.Decode(&v) != nil {
			return lists, true
		}
		end := start + int(dec.InputOffset())
		sep := true
		if line {
			sep = start == 0 && bytes.IndexByte(b[start:end], '\n') < 0
			if end >= len(b) || b[end] != '\n' {
				return lists, true
			}
			end++
		} else {
			for end < len(b) && strings.IndexByte(" \t\r\n", b[end]) >= 0 {
				end++
			}
		}
		lists = append(lists, fmt.Sprintf(`{"sep":%v,"vs":%s}`, sep, valsJSON(v)))
		b = b[end:]
	}
	return lists, tail
}
