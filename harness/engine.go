package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Case is one workload of a property, run by a worker process.
type Case struct {
	Name    string
	Variant string // real, san or race: the build it is run with
	Cost    int    // rough seconds, for scheduling the big ones first
	Run     func(c *Ctx)
}

// Ctx is what a running case observes and reports with.
type Ctx struct {
	Prop, Tier, Name string
	Seed             uint64
	Rng              *Rng
	Dir              string
	counters         map[string]int64
	max              map[string]int64
	sig              uint64
	sample           string
	trace            []string
	traceN           int
	nontrivial       bool

	goroutines int // there were at the start
}

type violation struct{ kind, detail string }

// Failf reports a violation and ends the case.
func (c *Ctx) Failf(kind, format string, args ...interface{}) {
	panic(violation{kind, fmt.Sprintf(format, args...)})
}

// Count counts an observation.
func (c *Ctx) Count(name string, n int64) { c.counters[name] += n }

// Max keeps the maximum of an observation.
func (c *Ctx) Max(name string, n int64) {
	if old, ok := c.max[name]; !ok || n > old {
		c.max[name] = n
	}
}

// Observe mixes what was observed into the signature of the execution.
func (c *Ctx) Observe(x uint64) { c.sig = mix(c.sig ^ x + 0x9E3779B97F4A7C15) }

// Nontrivial marks the case as such, by the rule of the property.
func (c *Ctx) Nontrivial() { c.nontrivial = true }

const traceLen = 64

// Trace remembers the last operations, for the replay file.
func (c *Ctx) Trace(s string) {
	if len(c.trace) < traceLen {
		c.trace = append(c.trace, s)
	} else {
		c.trace[c.traceN%traceLen] = s
	}
	c.traceN++
}

func (c *Ctx) lastOps() []string {
	if c.traceN <= traceLen {
		return c.trace
	}
	i := c.traceN % traceLen
	return append(append([]string{}, c.trace[i:]...), c.trace[:i]...)
}

// Path names a scratch file of the case.
func (c *Ctx) Path(name string) string { return filepath.Join(c.Dir, name) }

// Result is what a worker reports of a case.
type Result struct {
	Index      int
	Name       string
	Variant    string
	Violation  string   `json:",omitempty"`
	Detail     string   `json:",omitempty"`
	Stack      string   `json:",omitempty"`
	Inconcl    string   `json:",omitempty"`
	LastOps    []string `json:",omitempty"`
	Nontrivial bool
	Sig        uint64
	Counters   map[string]int64
	Max        map[string]int64
	Sample     string
	WallMs     int64

	tier string // of the list that the case is on
	seed uint64
}

// progress is bumped by every step of a workload; a process that burns CPU
// time without any is stuck inside of an operation.
//
// It is deliberately neither atomic nor seen by the race detector: an atomic
// here, on the path of every goroutine of every workload, would order their
// operations one after the other in the eyes of the race detector, and so hide
// the races between them. A lost increment is of no consequence.
var progress int64

//go:norace
//go:noinline
func step() { progress++ }

//go:norace
//go:noinline
func stepsTaken() int64 { return progress }

var errHarness = errors.New("harness")

func runCase(prop, tier string, seed uint64, idx int, cs Case, scratch string) (res Result) {
	res = Result{Index: idx, Name: cs.Name, Variant: variant}
	dir, err := os.MkdirTemp(scratch, "case-")
	if err != nil {
		res.Inconcl = err.Error()
		return
	}
	c := &Ctx{Prop: prop, Tier: tier, Name: cs.Name, Seed: seed, Dir: dir,
		Rng: NewRng(seed, hashString(prop), hashString(cs.Name)), counters: map[string]int64{}, max: map[string]int64{}}
	start := time.Now()
	done := make(chan struct{})
	go func() {
		defer close(done)
		// accesses to unmapped pages are panics, not the end of the process
		debug.SetPanicOnFault(true)
		finished := false
		defer func() {
			r := recover()
			if r == nil && !finished {
				r = "panic(nil), or the end of the goroutine"
			}
			if r != nil {
				switch v := r.(type) {
				case violation:
					res.Violation, res.Detail = v.kind, v.detail
				case inconclusive:
					res.Inconcl = string(v)
				default:
					res.Violation = "panic"
					res.Detail = fmt.Sprint(r)
					if a, ok := r.(interface{ Addr() uintptr }); ok {
						res.Detail += fmt.Sprintf(" (fault at %#x)", a.Addr())
					}
					res.Stack = string(debug.Stack())
				}
				res.LastOps = c.lastOps()
			}
		}()
		c.goroutines = runtime.NumGoroutine()
		cs.Run(c)
		finished = true
	}()
	<-done
	res.Nontrivial, res.Sig, res.Counters, res.Max, res.Sample = c.nontrivial, c.sig, c.counters, c.max, c.sample
	res.WallMs = time.Since(start).Milliseconds()
	os.RemoveAll(dir)
	return
}

type inconclusive string

const (
	stuckCPU          = 60 * time.Second // CPU time without a step
	memoryMax         = 3 << 30          // resident bytes of a worker
	wideMemoryMax     = 6 << 30          // of one with a million keys
	colossalMemoryMax = 14 << 30         // of one with values of gigabytes
	fileMax           = 6 << 30          // size of a file a worker writes
	farFileMax        = 80 << 30         // where most of it is a hole
	stackMax          = 256 << 20
	workerNice        = 5
)

var memoryLimit int64 = memoryMax

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var (
	statm     *os.File
	statmOnce sync.Once
)

// residentSize is how much memory is in use, but for what is mapped of files.
//
// The file that tells it stays open: cases that use up all descriptors must not
// see one come and go.
func residentSize() int64 {
	statmOnce.Do(func() { statm, _ = os.Open("/proc/self/statm") })
	if statm == nil {
		return 0
	}
	var b [256]byte
	n, _ := statm.ReadAt(b[:], 0)
	f := strings.Fields(string(b[:n]))
	if len(f) < 3 {
		return 0
	}
	rss, _ := strconv.ParseInt(f[1], 10, 64)
	shared, _ := strconv.ParseInt(f[2], 10, 64)
	return (rss - shared) * int64(os.Getpagesize())
}

// limitFiles limits how large the files written may become, as far as that
// may be changed.
func limitFiles(n uint64) {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		return
	}
	if l.Cur = n; n > l.Max {
		l.Cur = l.Max
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
}

// worker runs the cases whose indices it reads from its standard input.
func worker(prop, tier string, seed uint64, scratch string) {
	debug.SetMaxStack(stackMax)
	signal.Ignore(syscall.SIGXFSZ)
	limitFiles(fileMax)
	cases := casesOf(prop, tier, seed)
	out := json.NewEncoder(os.Stdout)
	current := int64(-1)
	emit := make(chan Result)
	emitted := make(chan struct{})
	go func() {
		for r := range emit {
			out.Encode(r)
			emitted <- struct{}{}
		}
	}()
	go func() {
		last, lastCPU := int64(-1), cpuTime()
		for {
			time.Sleep(500 * time.Millisecond)
			p, cpu := stepsTaken(), cpuTime()
			if p != last {
				last, lastCPU = p, cpu
			}
			idx := int(atomic.LoadInt64(&current))
			if idx < 0 {
				lastCPU = cpu
				continue
			}
			bad, detail := "", ""
			if cpu-lastCPU > stuckCPU {
				bad, detail = "stuck", fmt.Sprintf("an operation burnt %v of CPU time without returning", cpu-lastCPU)
			} else if rss := residentSize(); rss > atomic.LoadInt64(&memoryLimit) {
				bad, detail = "memory-runaway", fmt.Sprintf("%d bytes resident", rss)
			}
			if bad != "" {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				emit <- Result{Index: idx, Name: cases[idx].Name, Variant: variant, Violation: bad, Detail: detail, Stack: string(buf)}
				<-emitted
				os.Exit(3)
			}
		}
	}()
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		idx, err := strconv.Atoi(strings.TrimSpace(in.Text()))
		if err != nil || idx < 0 || idx >= len(cases) {
			fmt.Fprintln(os.Stderr, "bad index", in.Text())
			os.Exit(4)
		}
		atomic.StoreInt64(&current, int64(idx))
		fmt.Fprintf(os.Stderr, "@case %d %s\n", idx, cases[idx].Name)
		step()
		limitFiles(fileMax)
		atomic.StoreInt64(&memoryLimit, memoryMax)
		r := runCase(prop, tier, seed, idx, cases[idx], scratch)
		atomic.StoreInt64(&current, -1)
		step()
		emit <- r
		<-emitted
		runtime.GC()
		debug.FreeOSMemory()
	}
}

func sortedNames(m map[string]int64) []string {
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func mkdir(dir string) error { return os.MkdirAll(dir, 0o777) }

func removeFile(path string) { os.Remove(path) }
