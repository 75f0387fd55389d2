// The driver exercises the real library (and the jpath command) and records what it did as events for the
// trace specification spec/Trace.tla.
//
//	driver -prop C01 -seed 1 -tier quick -shard 0 -shards 8 -out DIR [-only N] [-n CASES] [-jpath FILE] [-skip "12=hang,..."]
//
// It judges nothing itself.  The cases are a function of the arguments only, so that after a crash or a hang the
// same cases can be made again with the offending one (whose number is in DIR/progress) recorded as such.
package main

import (
	"bufio"
	"encoding/binary"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type shard struct {
	prop   string
	tier   string
	seed   uint64
	shard  int
	shards int
	out    string
	jpath  string
	only   int
	budget int
	skip   map[int]string
	show   bool
	probes int

	r      *R
	n      int // cases made
	done   int // cases run
	ev, dc *bufio.Writer
	docs   map[string]int
	nd     int
	prog   *os.File
	first  bool // next event starts a session
	tick   atomic.Int64
	limit  time.Duration
}

var props = map[string]func(*shard){}

func main() {
	s := &shard{docs: map[string]int{}, skip: map[int]string{}}
	var seed int64
	var skip string
	flag.StringVar(&s.prop, "prop", "", "property")
	flag.Int64Var(&seed, "seed", 1, "seed")
	flag.StringVar(&s.tier, "tier", "quick", "tier")
	flag.IntVar(&s.shard, "shard", 0, "this shard")
	flag.IntVar(&s.shards, "shards", 1, "number of shards")
	flag.StringVar(&s.out, "out", ".", "output directory")
	flag.StringVar(&s.jpath, "jpath", "", "jpath binary")
	flag.IntVar(&s.only, "only", 0, "run this case only")
	flag.IntVar(&s.budget, "n", 1000, "cases")
	flag.StringVar(&skip, "skip", "", "cases not to run, with their outcome")
	flag.BoolVar(&s.show, "show", false, "print the events")
	onlyLong := false
	flag.BoolVar(&onlyLong, "onlylong", false, "run the cases with long values only")
	sessions := ""
	flag.StringVar(&sessions, "sessions", "", "file of generated sessions to carry out")
	limit := flag.Float64("limit", 30, "seconds a case may take")
	flag.Parse()
	s.limit = time.Duration(*limit * float64(time.Second))
	s.seed = uint64(seed)
	for _, x := range strings.Split(skip, ",") {
		if n, what, ok := strings.Cut(x, "="); ok {
			k, _ := strconv.Atoi(n)
			s.skip[k] = what
		}
	}
	f := props[s.prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no property", s.prop)
		os.Exit(3)
	}
	h := uint64(14695981039346656037)
	for _, c := range s.prop {
		h = (h ^ uint64(c)) * 1099511628211
	}
	s.r = newR(s.seed<<20 ^ h ^ uint64(s.shard)<<8 ^ uint64(s.shards))
	must := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	must(os.MkdirAll(s.out, 0o755))
	ef, err := os.Create(s.out + "/ev.ndjson")
	must(err)
	df, err := os.Create(s.out + "/docs.ndjson")
	must(err)
	s.prog, err = os.Create(s.out + "/progress")
	must(err)
	s.ev, s.dc = bufio.NewWriterSize(ef, 1<<20), bufio.NewWriterSize(df, 1<<20)
	debug.SetMaxStack(1 << 30)
	go s.watch()
	s.long()
	s.great()
	if sessions != "" {
		must(s.replaySessions(sessions))
	}
	if !onlyLong {
		f(s)
	}
	must(s.ev.Flush())
	must(s.dc.Flush())
	must(ef.Close())
	must(df.Close())
	fmt.Printf("cases %d docs %d\n", s.done, s.nd)
}

// watch ends the process when a case takes too long or too much memory.
func (s *shard) watch() {
	last, stalled, used := int64(-1), 0, cpuTime()
	page := os.Getpagesize()
	for {
		time.Sleep(100 * time.Millisecond)
		// looks are counted, not time, so that a process that was itself held up is not blamed
		if t := s.tick.Load(); t != last {
			last, stalled, used = t, 0, cpuTime()
		} else if stalled++; time.Duration(stalled)*100*time.Millisecond > s.limit {
			idle := ""
			if cpuTime()-used < s.limit/20 {
				idle = "idle " // it waits for something that does not come
			}
			fmt.Fprintf(os.Stderr, "%shang in case %d\n", idle, s.n)
			buf := make([]byte, 1<<14)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(97)
		}
		if b, err := os.ReadFile("/proc/self/statm"); err == nil {
			f := strings.Fields(string(b))
			if len(f) > 1 {
				if n, _ := strconv.Atoi(f[1]); n*page > 4<<30 {
					fmt.Fprintln(os.Stderr, "memory in case", s.n)
					os.Exit(98)
				}
			}
		}
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func (s *shard) more() bool { return s.n < s.budget }

// quick tells whether this is the quick tier.
func (s *shard) quick() bool { return s.tier != "thorough" }

// mine tells whether item i of an enumeration belongs to this shard.
func (s *shard) mine(i int) bool { return i%s.shards == s.shard }

// begin starts a case: is it to be run?  If not, it is recorded as it ended before.
func (s *shard) begin() bool {
	s.n++
	if s.only != 0 && s.only != s.n {
		return false
	}
	if what, ok := s.skip[s.n]; ok {
		s.first = true
		s.event("robust", `"out":{"r":"`+what+`"}`)
		return false
	}
	s.done++
	s.tick.Add(1)
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(s.n))
	s.prog.WriteAt(b[:], 0)
	s.first = true
	return true
}

// event records an event with the given JSON members.
func (s *shard) event(ev string, members string) {
	line := `{"ev":"` + ev + `","s":` + strconv.FormatBool(s.first) + `,"case":` + strconv.Itoa(s.n)
	if members != "" {
		line += "," + members
	}
	line += "}\n"
	s.first = false
	if s.show {
		fmt.Print(line)
	}
	s.ev.WriteString(line)
}

// docNo gives the number of a document, as it is now.
func (s *shard) docNo(v V) int {
	b := string(encVal(nil, v))
	if n, ok := s.docs[b]; ok {
		return n
	}
	s.nd++
	if len(b) < 4096 {
		s.docs[b] = s.nd
	}
	s.dc.WriteString(b)
	s.dc.WriteByte('\n')
	return s.nd
}

func bytesJSON(s string) string { return string(encBytes(nil, s)) }
func valsJSON(vs []V) string {
	b := []byte{'['}
	for i, v := range vs {
		if i > 0 {
			b = append(b, ',')
		}
		b = encVal(b, v)
	}
	return string(append(b, ']'))
}
func (o outcome) json() string { return `{"r":"` + o.R + `","vs":` + valsJSON(o.Vs) + `}` }

// Doc is a document that many cases use.
type Doc struct {
	v V
	n int
}

func (s *shard) newDoc(v V) *Doc { return &Doc{v: v} }
func (s *shard) num(d *Doc) int {
	if d.n == 0 {
		d.n = s.docNo(d.v)
	}
	return d.n
}

// once compiles and evaluates.
func (s *shard) once(path string, d *Doc) {
	if !s.begin() {
		return
	}
	n := s.num(d) // as it is before
	o := evalOnce(path, d.v)
	s.event("once", fmt.Sprintf(`"p":%s,"d":%d,"out":%s`, bytesJSON(path), n, o.json()))
	if s.show {
		fmt.Printf("%q %s %v %s\n", path, o.R, o.Vs, o.Msg)
	}
}

// robust is once for cases too large to be judged in detail.
func (s *shard) robust(f func() outcome) {
	if !s.begin() {
		return
	}
	o := f()
	s.event("robust", `"out":{"r":"`+o.R+`"}`)
}
