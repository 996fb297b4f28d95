package main

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"sync"
)

// C15: dictionaries are apart, and reading doesn't write.

// parallel runs bodies side by side, each with observations of its own, and
// passes on the first violation.
func (c *Ctx) parallel(n int, body func(c *Ctx, i int)) {
	subs := make([]*Ctx, n)
	fails := make([]interface{}, n)
	stacks := make([]string, n)
	for i := range subs {
		subs[i] = &Ctx{Prop: c.Prop, Tier: c.Tier, Name: c.Name, Seed: c.Seed, Dir: c.Path(fmt.Sprint("part", i)),
			Rng: NewRng(c.Rng.U64()), counters: map[string]int64{}, max: map[string]int64{}}
		if err := mkdir(subs[i].Dir); err != nil {
			panic(inconclusive(err.Error()))
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range subs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			finished := false
			defer func() {
				r := recover()
				if r == nil && !finished {
					r = "panic(nil), or the end of the goroutine"
				}
				if r != nil {
					fails[i] = r
					stacks[i] = string(debug.Stack())
				}
			}()
			<-start
			body(subs[i], i)
			finished = true
		}(i)
	}
	close(start)
	wg.Wait()
	for i, sub := range subs {
		for k, v := range sub.counters {
			c.Count(k, v)
		}
		for k, v := range sub.max {
			c.Max(k, v)
		}
		c.Observe(sub.sig)
		if fails[i] != nil {
			c.trace, c.traceN = sub.trace, sub.traceN
			switch v := fails[i].(type) {
			case violation, inconclusive:
				panic(v)
			}
			c.Failf("panic", "in a goroutine of its own: %v\n%s", fails[i], stacks[i])
		}
	}
}

// apart uses dictionaries of their own from goroutines of their own.
func apart(plans func(rng *Rng) []Plan) func(c *Ctx) {
	return func(c *Ctx) {
		ps := plans(NewRng(c.Rng.U64()))
		c.parallel(len(ps), func(c *Ctx, i int) {
			r := ps[i].runner(c)
			r.Phase = func(string) {
				if r.rng.Chance(1, 2) {
					r.reopen()
				}
				if r.s.Ordered() {
					r.ranges(20)
				} else {
					r.scanWithUpdates()
				}
			}
			ps[i].play(r)
			r.mustClose()
		})
		c.Count("goroutines", int64(len(ps)))
		c.sample = fmt.Sprintf("%d dictionaries in as many goroutines, %d ops", len(ps), c.counters["ops"])
		if c.counters["ops"] > 2000 {
			c.Nontrivial()
		}
	}
}

// readOnly reads in every way there is.
func (r *Runner) readOnly(n int) {
	c, s, m := r.c, r.s, r.m
	for i := 0; i < n; i++ {
		step()
		switch x := r.rng.Intn(8); {
		case x < 3:
			k, _ := r.pickLive()
			if r.rng.Chance(1, 3) {
				k = r.pick()
			}
			if len(r.shared) > 0 && r.rng.Chance(1, 3) {
				k = r.shared[r.rng.Intn(len(r.shared))]
			}
			want, there := m.Get(string(k))
			ret := r.ret()
			out, ok := s.Apply(opTest, k, nil, ret)
			if (ok == 1) != there {
				c.Failf("result", "%s Test(%s) returned %v, want %v", s.Kind, short(k), ok == 1, there)
			}
			if !ret || !there {
				want = ""
			}
			if !eqBytes(out, want) {
				c.Failf("value", "%s Test(%s): %s", s.Kind, short(k), diffAt(out, want))
			}
			c.Count("tests", 1)
		case x < 5:
			if s.Ordered() {
				r.ranges(2)
			} else {
				r.scanSome()
			}
		case x < 6:
			if s.Ordered() {
				r.parts(5, 2)
			} else {
				r.scanSome()
			}
		case x == 6 && s.bt != nil && r.rng.Chance(1, 15):
			var b bytes.Buffer
			if err := s.bt.Fprint(&b); err != nil {
				c.Failf("dump", "Fprint failed: %v", err)
			}
			if m.payload < 300000 {
				keys, values := readDump(c, b.String())
				if len(keys) != m.Len() {
					c.Failf("dump", "a dump tells of %d records, there are %d", len(keys), m.Len())
				}
				for i, k := range keys {
					if v, there := m.Get(k); !there || values[i] != v || i > 0 && keys[i-1] >= k {
						c.Failf("dump", "entry %d of %d of a dump, of key %s, isn't right", i, len(keys), short([]byte(k)))
					}
				}
				c.Count("dumps.compared", 1)
			}
			c.Count("dumps", 1)
		case x < 7: // refused writes read only, too
			if k := r.absent(); k != nil {
				if _, ok := s.Apply(opTest, k, nil, true); ok == 1 {
					c.Failf("ghost", "%s Test(%s) of an absent key", s.Kind, short(k))
				}
			}
		default:
			if sh := s.Shape(); sh.Count != m.Len() || sh.Payload != m.payload {
				c.Failf("stats", "%s tells of %v; it holds %d items of %d bytes", s.Kind, sh, m.Len(), m.payload)
			}
			s.FSM()
			c.Count("stats", 1)
		}
	}
}

// sharedKeys makes keys that several goroutines pass at once, with room behind
// them that isn't the library's.
func (r *Runner) sharedKeys(n int) [][]byte {
	var keys [][]byte
	for len(keys) < n {
		k := r.pick()
		if l, ok := r.pickLive(); ok && r.rng.Chance(1, 2) {
			k = l
		}
		_, part := padded(k)
		keys = append(keys, part)
	}
	return keys
}

func (r *Runner) scanSome() {
	x := newScanner("scan")
	for i := 0; i < 40 && !x.done; i++ {
		r.scanStep(x, r.checkItem(x))
	}
}

// share makes a runner of its own that reads the same store and model.
func (r *Runner) share(c *Ctx) *Runner {
	return &Runner{c: c, s: r.s, m: r.m, pool: r.pool, val: r.val, rng: NewRng(c.Rng.U64()), shape: r.shape, id: 1 << 40}
}

func readers(p Plan, n int) func(c *Ctx) {
	return func(c *Ctx) {
		r := p.runner(c)
		p.play(r)
		const goroutines = 6
		read := func(n int) {
			keys := r.sharedKeys(40)
			c.parallel(goroutines, func(c *Ctx, i int) {
				q := r.share(c)
				q.shared = keys
				q.readOnly(n)
			})
			c.Count("goroutines", goroutines)
		}
		r.noVerify = true
		read(n / 2)
		// readers are the first to look after opening
		r.mustClose()
		r.mustOpen(false)
		read(n / 4)
		c.Count("cold.starts", 1)
		// and after changes
		for i := 0; i < 3; i++ {
			r.phase([]string{"mixed", "shrink", "grow"}[i], r.rng.Range(20, 200))
			read(n / 10)
		}
		r.noVerify = false
		r.verify(true)
		r.phase("mixed", 100)
		r.mustClose()
		c.sample = fmt.Sprintf("%d goroutines reading %d items: %d tests, %d ranges, %d scan steps", goroutines, c.max["items"], c.counters["tests"], c.counters["ranges"], c.counters["scan.steps"])
		if c.counters["tests"] > 200 && c.counters["ranges"]+c.counters["scan.steps"] > 100 {
			c.Nontrivial()
		}
	}
}

// guarded reads and writes under a reader-writer lock.
func guarded(p Plan, n int) func(c *Ctx) {
	return func(c *Ctx) {
		r := p.runner(c)
		p.play(r)
		r.noVerify = true
		var mu sync.RWMutex
		var writes, switches int
		last := -1
		c.parallel(6, func(c *Ctx, i int) {
			q := r.share(c)
			if i < 2 {
				for j := 0; j < n; j++ {
					func() {
						mu.Lock()
						defer mu.Unlock()
						if last != i {
							switches++
							last = i
						}
						q.id = r.id
						q.shape = r.s.Shape()
						q.noVerify = true
						for k := 0; k < 5; k++ {
							op := q.rng.Intn(numOps)
							key := q.pick()
							q.do(op, key, q.valueFor(op, key), q.ret())
							writes++
						}
						r.id = q.id
					}()
				}
				return
			}
			for j := 0; j < n; j++ {
				func() {
					mu.RLock()
					defer mu.RUnlock()
					q.readOnly(4)
				}()
			}
		})
		r.shape = r.s.Shape()
		r.verify(true)
		r.reopen()
		r.verify(true)
		r.mustClose()
		c.Count("writer.switches", int64(switches))
		c.Count("goroutines", 6)
		c.sample = fmt.Sprintf("%d writes, writers took turns %d times, %d tests alongside", writes, switches, c.counters["tests"])
		if writes > 200 && c.counters["tests"] > 100 {
			c.Nontrivial()
		}
	}
}

func init() {
	register("C15", Property{
		Rule:    "A case runs goroutines against the real code, built with the race detector and without: dictionaries of their own (each compared with a reference map of its own), several readers of one dictionary, and readers and writers of one under a reader-writer lock, all results compared with a reference map. Non-trivial: 2000 operations, or 200 tests and 100 ranges or scan steps by six readers, or 200 guarded writes. Distinct: by a hash of the contents and of what was read.",
		MustSee: []string{"goroutines", "tests", "ranges", "scan.steps", "writer.switches", "leaf.splits", "slot.splits", "dumps", "cold.starts"},
		Cases: func(tier string, rng *Rng) []Case {
			var cs []Case
			for _, v := range []string{"race", "real"} {
				v := v
				scale := 1
				if v == "real" {
					scale = 3
				}
				if thorough(tier) {
					scale *= 4
				}
				for i := 0; i < pickN(tier, 10, 60); i++ {
					kinds := [][]string{{"od", "dict"}, {"od"}, {"dict"}, {"od", "dict", "bpt", "hm"}}[i%4]
					cs = append(cs, Case{Name: fmt.Sprintf("%s apart %d %v", v, i, kinds), Variant: v, Cost: 3, Run: apart(func(rng *Rng) []Plan {
						ps := randomPlans(rng, 5, 1500*scale, kinds...)
						// the same twice: they meet the same code at the same time
						a := Plan{Kind: kinds[0], Keys: "bound", Vals: "bound", Pool: 800, Phases: steps("fill mixed:1500 shrink:500 mixed:800 drain")}
						return append(ps, a, a)
					})})
				}
				for i, kind := range []string{"od", "dict", "bpt", "hm"} {
					for j, p := range []Plan{
						{Keys: "bound", Vals: "bound", Pool: 2500, Phases: steps("fill thin:400")},
						{Keys: "long", Vals: "mixed", Pool: 1500, Phases: steps("fill")},
						{Keys: "collide", Vals: "bound", Pool: 500, Phases: steps("fill")},
						{Keys: "num", Vals: "page", Pool: 4000, Phases: steps("fill shrink:1000")},
						{Keys: "tiny", Vals: "big", Pool: 60, Phases: steps("fill")},
					} {
						p.Kind = kind
						cs = append(cs, Case{Name: fmt.Sprintf("%s readers %d.%d %v", v, i, j, p), Variant: v, Cost: 2, Run: readers(p, 400*scale)})
						cs = append(cs, Case{Name: fmt.Sprintf("%s guarded %d.%d %v", v, i, j, p), Variant: v, Cost: 2, Run: guarded(p, 150*scale)})
					}
				}
			}
			return cs
		},
	})
}
