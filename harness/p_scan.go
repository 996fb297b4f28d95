package main

import "fmt"

// C05: scans.

func scanPlans(tier string, rng *Rng) []Plan {
	ps := []Plan{
		{Kind: "dict", Keys: "tiny", Vals: "mixed", Pool: 300, Phases: steps("fill:1 fill:2 fill:3 churn:400 thin:80 fill shrink:200 churn:400 drain churn:3")},
		{Kind: "dict", Keys: "collide", Vals: "bound", Pool: 800, Phases: steps("fill thin:200 mixed:2000 shrink:300 resize:500")},
		{Kind: "dict", Keys: "skew", Vals: "page", Pool: 1500, Phases: steps("fill thin:400 mixed:2000 shrink:800 resize:500")},
		{Kind: "dict", Keys: "short24", Vals: "empty", Pool: 3000, Phases: steps("fill thin:1000 mixed:2000 shrink:1000 resize:500")},
		{Kind: "dict", Keys: "rand8", Vals: "small", Pool: 16000, Phases: steps("fill shrink:9000 edge:1000 shrink:5000"), Cost: 1},
		{Kind: "dict", Keys: "num", Vals: "page", Pool: 60000, Phases: steps("fill shrink:45000"), Cost: 3},
		{Kind: "hm", Keys: "huge", Vals: "huge", Pool: 30, Phases: steps("fill thin:5 mixed:60")},
		{Kind: "dict", Keys: "bound", Vals: "bound", Pool: 5000, Phases: steps("fill thin:1000 mixed:3000 shrink:2000 resize:1000")},
		{Kind: "dict", Keys: "mixed", Vals: "mixed", Pool: 8000, Phases: steps("fill thin:2000 mixed:6000 shrink:4000 resize:1000")},
	}
	ps = append(ps, farPlans(3, "dict", "hm")...)
	return append(ps, randomPlans(rng, pickN(tier, 110, 900), 6000, "dict", "dict", "hm")...)
}

type scanner struct {
	name  string
	cur   Cursor
	seen  map[string]bool
	done  bool
	clone int
	// what was returned, to see that it stays as it was
	held []heldItem
}

type heldItem struct {
	k, v   []byte
	ks, vs string
}

func (r *Runner) scanStep(x *scanner, check func(k, v []byte)) {
	step()
	c := r.c
	k, v, ok := r.s.Scan(&x.cur)
	c.Count("scan.steps", 1)
	if !ok {
		if k != nil || v != nil {
			c.Failf("scan-end", "%s: the end of the scan came with key %s and value %s", x.name, short(k), short(v))
		}
		if len(x.seen) != r.m.Len() {
			for _, k := range r.m.live {
				if !x.seen[k] {
					c.Failf("scan-missing", "%s: the scan ended with %d of %d items; %s is missing", x.name, len(x.seen), r.m.Len(), short([]byte(k)))
				}
			}
		}
		if !x.done {
			c.Count("scans", 1)
		}
		x.done = true
		return
	}
	if x.done {
		c.Failf("scan-revived", "%s: the scan went on after its end, with %s", x.name, short(k))
	}
	if x.seen[string(k)] {
		c.Failf("scan-twice", "%s: the scan returned %s twice", x.name, short(k))
	}
	x.seen[string(k)] = true
	check(k, v)
	if len(x.held) < 64 {
		x.held = append(x.held, heldItem{k, v, string(k), string(v)})
	}
}

func (r *Runner) checkItem(x *scanner) func(k, v []byte) {
	return func(k, v []byte) {
		want, ok := r.m.Get(string(k))
		if !ok {
			r.c.Failf("scan-ghost", "%s: the scan returned %s, which isn't there", x.name, short(k))
		}
		if !eqBytes(v, want) {
			r.c.Failf("scan-value", "%s: the scan returned a wrong value of %s: %s", x.name, short(k), diffAt(v, want))
		}
	}
}

func (r *Runner) checkHeld(x *scanner) {
	for _, h := range x.held {
		if string(h.k) != h.ks || string(h.v) != h.vs {
			r.c.Failf("scan-unstable", "%s: an item returned earlier, %s, has changed: %s, %s", x.name, short([]byte(h.ks)), diffAt(h.k, h.ks), diffAt(h.v, h.vs))
		}
	}
}

func newScanner(name string) *scanner { return &scanner{name: name, seen: map[string]bool{}} }

// scans runs scans side by side, copies cursors on the way and goes on with both.
func (r *Runner) scans() {
	c := r.c
	xs := []*scanner{newScanner("scan A"), newScanner("scan B"), newScanner("scan C")}
	clones := 0
	budget := r.m.Len()*8 + 60
	for n := 0; n < budget; n++ {
		x := xs[r.rng.Intn(len(xs))]
		if x.done && !r.rng.Chance(1, 20) {
			continue
		}
		r.scanStep(x, r.checkItem(x))
		if clones < 4 && len(xs) < 7 && !x.done && r.rng.Chance(1, r.m.Len()/4+2) {
			clones++
			y := newScanner(x.name + "'")
			y.cur = x.cur // a copy is a cursor of its own
			for k := range x.seen {
				y.seen[k] = true
			}
			xs = append(xs, y)
			c.Count("scan.copies", 1)
		}
		// what changes nothing in between
		if r.rng.Chance(1, 20) {
			r.noop(n)
		}
	}
	for _, x := range xs {
		for !x.done {
			r.scanStep(x, r.checkItem(x))
		}
		for i := 0; i < 3; i++ {
			r.scanStep(x, r.checkItem(x))
		}
		r.checkHeld(x)
	}
	c.Observe(uint64(c.counters["scan.steps"]))
}

// scanWithUpdates replaces values while scanning: which keys there are stays,
// so each must still come once, with a value it had at some point of the scan.
func (r *Runner) scanWithUpdates() {
	c := r.c
	x := newScanner("scan with updates")
	allowed := map[string]map[string]bool{}
	for !x.done {
		r.scanStep(x, func(k, v []byte) {
			want, ok := r.m.Get(string(k))
			if !ok {
				c.Failf("scan-ghost", "%s: the scan returned %s, which isn't there", x.name, short(k))
			}
			if !eqBytes(v, want) && !allowed[string(k)][string(v)] {
				c.Failf("scan-value", "%s: the scan returned a value of %s that it never had: %s", x.name, short(k), diffAt(v, want))
			}
		})
		if r.rng.Chance(1, 3) {
			if k, ok := r.pickLive(); ok {
				old, _ := r.m.Get(string(k))
				if allowed[string(k)] == nil {
					allowed[string(k)] = map[string]bool{}
				}
				allowed[string(k)][old] = true
				r.do(opSetIfExists, k, r.newValue(k), false)
				c.Count("scan.updates", 1)
			}
		}
	}
	r.checkHeld(x)
}

// scanWithChanges has keys come and go while scanning: items may be missed or
// come twice then, but the scan still ends, and what it returns was there.
func (r *Runner) scanWithChanges(changes int) {
	c := r.c
	x := newScanner("scan with changes")
	was := map[string]map[string]bool{}
	note := func(k string) {
		if v, ok := r.m.Get(k); ok {
			if was[k] == nil {
				was[k] = map[string]bool{}
			}
			was[k][v] = true
		}
	}
	way := r.rng.Intn(3) // mostly adding, mostly removing, or both
	for last := false; ; {
		step()
		k, v, ok := r.s.Scan(&x.cur)
		c.Count("scan.steps", 1)
		if !ok {
			if last || changes == 0 {
				break
			}
			last = true // there may be more when keys are added
		} else {
			ks := string(k)
			want, there := r.m.Get(ks)
			if !(there && eqBytes(v, want)) && !was[ks][string(v)] {
				c.Failf("scan-ghost", "%s: the scan returned %s with %s, which it never had meanwhile", x.name, short(k), short(v))
			}
			if len(x.held) < 64 {
				x.held = append(x.held, heldItem{k, v, ks, string(v)})
			}
		}
		for ; changes > 0 && r.rng.Chance(2, 3); changes-- {
			op, key := r.rng.Intn(numOps), r.pick()
			if l, ok := r.pickLive(); ok && (way == 1 || way == 2 && r.rng.Chance(1, 2)) {
				op, key = []int{opClear, opClear, opClear, opSet}[r.rng.Intn(4)], l
			} else if way == 0 {
				op = []int{opSet, opSetIfNotExists}[r.rng.Intn(2)]
			}
			note(string(key))
			r.do(op, key, r.valueFor(op, key), r.ret())
			note(string(key))
			c.Count("scan.changes", 1)
		}
	}
	r.checkHeld(x)
}

func init() {
	register("C05", Property{
		MustSee: []string{"scans", "scan.copies", "scan.updates", "scan.changes", "slot.splits", "slot.merges"},
		Rule:    "A case is a history on the real hash map; after each phase several scans are interleaved, cursors are copied half way and both copies go on, finished scans are asked again, one scan runs while values are replaced and one while keys come and go; every item returned is compared with a reference map, and those returned earlier are looked at again at the end. Non-trivial: 10 complete scans and a copied cursor. Distinct: by a hash of the contents and the number of steps.",
		Cases: func(tier string, rng *Rng) []Case {
			ps := scanPlans(tier, rng)
			return append(twinCases(rng, pickN(tier, 10, 60), func(r *Runner) {
				r.scans()
				r.scanWithUpdates()
			}, "dict", "hm"), planCases("real", ps, func(c *Ctx, p Plan) {
				r := p.runner(c)
				r.noVerify = true
				r.scans()
				r.Phase = func(string) {
					r.scans()
					r.scanWithUpdates()
					r.scanWithChanges(r.rng.Pick(10, 100, 400, 1000))
				}
				p.play(r)
				// what was returned outlives the store
				x := newScanner("scan before closing")
				for !x.done {
					r.scanStep(x, r.checkItem(x))
				}
				r.mustClose()
				r.checkHeld(x)
				r.mustOpen(false)
				x = newScanner("scan after reopening")
				for !x.done {
					r.scanStep(x, r.checkItem(x))
				}
				r.mustClose()
				c.sample = fmt.Sprintf("%d scans, %d steps, %d copied cursors, %d updates while scanning", c.counters["scans"], c.counters["scan.steps"], c.counters["scan.copies"], c.counters["scan.updates"])
				if c.counters["scans"] >= 10 && c.counters["scan.copies"] > 0 {
					c.Nontrivial()
				}
			})...)
		},
	})
}
