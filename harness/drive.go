package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Replay is the content of a replay file.
type Replay struct {
	Property, Tier string
	Seed           uint64
	Case, Variant  string
	Kind, Detail   string
	LastOps        []string
	Stack          string
	Rerun          string
}

const (
	driveDeadline = 840 * time.Second // then the rest is inconclusive
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func scratchRoot() string {
	var st syscall.Statfs_t
	if err := syscall.Statfs("/dev/shm", &st); err == nil && int64(st.Bavail)*st.Bsize > 6<<30 {
		if d, err := os.MkdirTemp("/dev/shm", "vh-"); err == nil {
			return d
		}
	}
	d, err := os.MkdirTemp("", "vh-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return d
}

// job is a case of the list of a tier and seed.
type job struct {
	tier string
	seed uint64
	idx  int
	cs   Case
}

// budget is for how long a run goes on with the quick cases of further seeds
// after those of its own.
func budget(tier string) time.Duration {
	if n, err := strconv.Atoi(os.Getenv("VH_BUDGET")); err == nil {
		return time.Duration(n) * time.Second
	}
	if thorough(tier) {
		return 600 * time.Second
	}
	return 20 * time.Second
}

// furtherRound returns the quick cases of another seed in random order; in
// quick runs without those that take long.
func furtherRound(prop, tier string, seed uint64, round int) []job {
	seed += uint64(round) * 7919
	var js []job
	for i, c := range casesOf(prop, "quick", seed) {
		if c.Cost < 10 || thorough(tier) {
			js = append(js, job{"quick", seed, i, c})
		}
	}
	rng := NewRng(seed, hashString("round"))
	for i := range js {
		k := i + rng.Intn(len(js)-i)
		js[i], js[k] = js[k], js[i]
	}
	// a worker runs cases of one build
	sort.SliceStable(js, func(a, b int) bool { return js[a].cs.Variant < js[b].cs.Variant })
	return js
}

type proc struct {
	variant string
	tier    string
	seed    uint64
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	errPath string
}

func startProc(prop, tier string, seed uint64, variant, scratch string, slot int) (*proc, error) {
	bin := filepath.Join(os.Getenv("VH_BIN"), "vh-"+variant)
	p := &proc{variant: variant, tier: tier, seed: seed, errPath: filepath.Join(scratch, fmt.Sprintf("stderr-%d", slot))}
	p.cmd = exec.Command(bin, "work", prop, scratch)
	p.cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", int64(seed)), "VERIF_TIER="+tier,
		"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=single")
	if variant == "race" {
		p.cmd.Env = append(p.cmd.Env, "GOMAXPROCS=4")
	} else {
		p.cmd.Env = append(p.cmd.Env, "GOMAXPROCS=2")
	}
	ef, err := os.Create(p.errPath)
	if err != nil {
		return nil, err
	}
	defer ef.Close()
	p.cmd.Stderr = ef
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(out, 1<<20)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return p, p.cmd.Start()
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (p *proc) run(idx int, cs Case) Result {
	fmt.Fprintf(p.in, "%d\n", idx)
	line, err := p.out.ReadBytes('\n')
	if err == nil {
		var r Result
		if err = json.Unmarshal(line, &r); err == nil {
			return r
		}
	}
	p.in.Close()
	werr := p.cmd.Wait()
	b, _ := os.ReadFile(p.errPath)
	if len(b) > 24000 {
		b = append(append(b[:12000:12000], "\n...\n"...), b[len(b)-12000:]...)
	}
	stderr := string(b)
	r := Result{Index: idx, Name: cs.Name, Variant: cs.Variant, Stack: stderr}
	if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		r.Inconcl = "worker was killed"
		return r
	}
	switch {
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		r.Violation, r.Detail = "data-race", "the race detector reported a data race"
	case strings.Contains(stderr, "checkptr"):
		r.Violation, r.Detail = "checkptr", "unsafe pointer misuse"
	case strings.Contains(stderr, "stack overflow") || strings.Contains(stderr, "goroutine stack exceeds"):
		r.Violation, r.Detail = "stack-overflow", "unbounded recursion"
	default:
		r.Violation, r.Detail = "crash", fmt.Sprintf("worker ended: %v", werr)
	}
	return r
}

func drive(prop, tier string, seed uint64, only string) int {
	start := time.Now()
	info, ok := properties[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	cases := casesOf(prop, tier, seed)
	order := make([]job, 0, len(cases))
	for i, c := range cases {
		if only == "" || c.Name == only {
			order = append(order, job{tier, seed, i, c})
		}
	}
	if len(order) == 0 {
		fmt.Fprintln(os.Stderr, "no cases")
		return 2
	}
	sort.SliceStable(order, func(a, b int) bool {
		x, y := order[a].cs, order[b].cs
		if x.Variant != y.Variant {
			return x.Variant < y.Variant
		}
		return x.Cost > y.Cost
	})
	scratch := scratchRoot()
	defer os.RemoveAll(scratch)
	signals := make(chan os.Signal, 1)
	signal.Notify(signals, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-signals
		os.RemoveAll(scratch)
		os.Exit(2)
	}()
	slots := runtime.NumCPU()
	if slots > 8 {
		slots = 8
	}
	if slots > len(order) {
		slots = len(order)
	}
	known := loadKnown(prop)
	var mu sync.Mutex
	var results []Result
	var procs = make([]*proc, slots)
	next, stopped := 0, false
	rounds, limit := 0, budget(tier)
	timedOut := false
	stopAll := func() {
		for _, p := range procs {
			if p != nil {
				p.cmd.Process.Kill()
			}
		}
	}
	timer := time.AfterFunc(driveDeadline, func() {
		mu.Lock()
		defer mu.Unlock()
		if !stopped {
			stopped, timedOut = true, true
			stopAll()
		}
	})
	defer timer.Stop()
	var wg sync.WaitGroup
	for s := 0; s < slots; s++ {
		wg.Add(1)
		go func(s int) {
			runtime.LockOSThread() // Pdeathsig is about the thread
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				if !stopped && next >= len(order) && only == "" && time.Since(start) < limit {
					rounds++
					order = append(order, furtherRound(prop, tier, seed, rounds)...)
				}
				if stopped || next >= len(order) || order[next].seed != seed && time.Since(start) >= limit {
					mu.Unlock()
					return
				}
				j := order[next]
				next++
				mu.Unlock()
				idx, cs := j.idx, j.cs
				if p == nil || p.variant != cs.Variant || p.tier != j.tier || p.seed != j.seed {
					if p != nil {
						p.stop()
					}
					np, err := startProc(prop, j.tier, j.seed, cs.Variant, scratch, s)
					if err != nil {
						mu.Lock()
						results = append(results, Result{Index: idx, Name: cs.Name, Inconcl: err.Error(), tier: j.tier, seed: j.seed})
						procs[s] = nil
						mu.Unlock()
						p = nil
						continue
					}
					p = np
					mu.Lock()
					procs[s] = p
					mu.Unlock()
				}
				r := p.run(idx, cs)
				r.tier, r.seed = j.tier, j.seed
				mu.Lock()
				if stopped && r.Violation == "" {
					mu.Unlock()
					return
				}
				results = append(results, r)
				if r.Violation != "" && !known.match(r) {
					stopped = true
					for i, q := range procs {
						if i != s && q != nil {
							q.cmd.Process.Kill()
						}
					}
				}
				dead := r.Violation != "" || r.Inconcl != ""
				mu.Unlock()
				if dead {
					p.stop()
					p = nil
					mu.Lock()
					procs[s] = nil
					mu.Unlock()
				}
			}
		}(s)
	}
	wg.Wait()
	return conclude(prop, tier, seed, info, len(cases), rounds, results, known, timedOut, only != "", time.Since(start))
}

func conclude(prop, tier string, seed uint64, info Property, planned, rounds int, results []Result, known knownList, timedOut, replaying bool, wall time.Duration) int {
	sort.Slice(results, func(i, j int) bool { return results[i].Index < results[j].Index })
	counters, maxima := map[string]int64{}, map[string]int64{}
	sigs := map[uint64]bool{}
	byVariant := map[string]int64{}
	var samples []interface{}
	evaluations, inconclusives, further := 0, 0, 0
	var viols []Result
	var knownSeen []Result
	var slowest Result
	for _, r := range results {
		if r.WallMs > slowest.WallMs {
			slowest = r
		}
		if r.Inconcl != "" {
			inconclusives++
			fmt.Printf("inconclusive: %s: %s\n", r.Name, r.Inconcl)
			continue
		}
		evaluations++
		if r.seed != seed {
			further++
		}
		byVariant[r.Variant]++
		if r.Violation != "" {
			if known.match(r) {
				knownSeen = append(knownSeen, r)
			} else {
				viols = append(viols, r)
			}
			continue
		}
		for k, v := range r.Counters {
			counters[k] += v
		}
		for k, v := range r.Max {
			if old, ok := maxima[k]; !ok || v > old {
				maxima[k] = v
			}
		}
		if r.Nontrivial {
			sigs[r.Sig] = true
		}
		if r.Sample != "" && len(samples) < 6 && (len(samples) == 0 || r.Index%((planned+5)/6) == 0) {
			samples = append(samples, map[string]interface{}{"case": r.Name, "variant": r.Variant, "observed": r.Sample, "ms": r.WallMs})
		}
	}
	if len(samples) == 0 {
		for _, r := range results {
			if len(samples) < 3 {
				samples = append(samples, map[string]interface{}{"case": r.Name, "variant": r.Variant, "violation": r.Violation, "ms": r.WallMs})
			}
		}
	}
	coverage := map[string]interface{}{
		"evaluations":         evaluations,
		"distinct_nontrivial": len(sigs),
		"rule":                info.Rule,
		"samples":             samples,
		"cases_planned":       planned,
		"cases_of_more_seeds": further,
		"more_seeds":          rounds,
		"cases_by_build":      byVariant,
		"observed":            counters,
		"maxima":              maxima,
		"inconclusive":        inconclusives,
	}
	ev := map[string]interface{}{
		"property":    prop,
		"tier":        tier,
		"seed":        int64(seed),
		"level":       info.Level,
		"coverage":    coverage,
		"assumptions": info.Assumptions,
		"wall_s":      wall.Seconds(),
		"violations":  len(viols),
	}
	if !replaying {
		dir := filepath.Join(verifDir(), "evidence")
		os.MkdirAll(dir, 0o777)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o666); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, r := range knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s: %s\n", prop, r.Name, r.Violation, oneLine(r.Detail))
	}
	fmt.Printf("%s %s: %d of %d cases, %d of %d more seeds, %d distinct non-trivial, %d violations, %.1fs\n", prop, tier, evaluations-further, planned, further, rounds, len(sigs), len(viols), wall.Seconds())
	for _, k := range sortedNames(counters) {
		fmt.Printf("  %s=%d", k, counters[k])
	}
	fmt.Println()
	for _, k := range sortedNames(maxima) {
		fmt.Printf("  max %s=%d", k, maxima[k])
	}
	fmt.Printf("\n  longest case: %.1fs %s\n", float64(slowest.WallMs)/1000, slowest.Name)
	if len(viols) > 0 {
		for i, r := range viols {
			if i >= 3 {
				break
			}
			fmt.Printf("%s: %s: %s\n", r.Name, r.Violation, oneLine(r.Detail))
			dir := filepath.Join(verifDir(), "replays")
			os.MkdirAll(dir, 0o777)
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", prop, r.tier, int64(r.seed), r.Index))
			b, _ := json.MarshalIndent(Replay{Property: prop, Tier: r.tier, Seed: r.seed, Case: r.Name, Variant: r.Variant, Kind: r.Violation,
				Detail: r.Detail, LastOps: r.LastOps, Stack: r.Stack, Rerun: fmt.Sprintf("bash %s/check.sh --replay %s", verifDir(), path)}, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o666)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
		return 1
	}
	if timedOut {
		fmt.Println("inconclusive: out of time")
		return 2
	}
	if inconclusives > 0 {
		return 2
	}
	if len(sigs) == 0 && !replaying {
		fmt.Println("inconclusive: nothing non-trivial was observed")
		return 2
	}
	if !replaying {
		for _, k := range info.MustSee {
			if counters[k] == 0 {
				fmt.Printf("inconclusive: the workloads never saw %q\n", k)
				return 2
			}
		}
	}
	return 0
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// knownList are the known findings: lines "known: property=ID kind=KIND case=NAME ..."
type knownList []struct{ kind, name string }

func loadKnown(prop string) knownList {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var l knownList
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+prop {
			continue
		}
		l = append(l, struct{ kind, name string }{strings.TrimPrefix(f[2], "kind="), strings.TrimPrefix(f[3], "case=")})
	}
	return l
}

func (l knownList) match(r Result) bool {
	for _, k := range l {
		if k.kind == r.Violation && k.name == r.Name {
			return true
		}
	}
	return false
}
