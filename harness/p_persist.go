package main

import (
	"fmt"
	"os"
	"strings"
)

// C06 and C07: what is closed comes back.

func persistCase(c *Ctx, p Plan) {
	r := p.runner(c)
	// a store that was never written to
	r.reopenChecked()
	for _, st := range p.Phases {
		n := st.N
		// long phases are cut into sessions
		if n != 1<<30 && n > 400 && !strings.HasPrefix(st.Name, "fill") && st.Name != "thin" && st.Name != "shrinkmid" {
			parts := r.rng.Range(1, 4)
			for i := 0; i < parts; i++ {
				r.session(st.Name, n/parts)
			}
			continue
		}
		r.session(st.Name, n)
	}
	back := r.backup()
	// sessions of a single operation
	for i := r.m.Len() / 30000; i < 25; i++ {
		op := r.rng.Intn(numOps)
		k := r.pick()
		if i&1 == 0 {
			if l, ok := r.pickLive(); ok {
				k = l
			}
		}
		r.do(op, k, r.valueFor(op, k), true)
		r.reopenChecked()
		c.Count("sessions", 1)
	}
	// sessions that end with as many items and bytes as they began with
	if r.m.Len() == 0 {
		r.session("grow", 100)
	}
	for i := 0; i < 6 && r.m.Len() < 30000; i++ {
		count, payload := r.m.Len(), r.m.payload
		r.noVerify = true
		if n := r.rng.Range(1, 60<<uint(i)); i&1 == 0 {
			r.phase("resize", n)
		} else {
			r.phase("shrink", n/2)
			r.phase("mixed", n/3)
		}
		r.settle(count, payload)
		r.noVerify = false
		r.reopenChecked()
		c.Count("sessions", 1)
	}
	back()
	// another file of the same bytes holds the same
	r.mustClose()
	copyPath := c.Path("moved")
	if p.Far != nil {
		if err := os.Rename(r.s.Path, copyPath); err != nil {
			panic(inconclusive(err.Error()))
		}
	} else {
		b, err := os.ReadFile(r.s.Path)
		if err != nil {
			panic(inconclusive(err.Error()))
		}
		c.Max("file", int64(len(b)))
		if err := os.WriteFile(copyPath, b, 0o666); err != nil {
			panic(inconclusive(err.Error()))
		}
		os.Remove(r.s.Path)
	}
	r.s.Path = copyPath
	r.mustOpen(false)
	r.verify(true)
	r.session("churn", 200)
	r.phase("drain", 0)
	r.reopenChecked()
	r.session("grow", 100)
	r.mustClose()
	c.sample = fmt.Sprintf("%d sessions, %d ops, %d items compared after reopening; max %v", c.counters["sessions"], c.counters["ops"], c.counters["verified.items"], c.max)
	if c.counters["sessions"] >= 10 && c.max["items"] >= 10 {
		c.Nontrivial()
	}
}

// backup copies the file, and gives a function that puts the copy in its place.
func (r *Runner) backup() func() {
	stats := r.s.Shape()
	r.mustClose()
	defer r.mustOpen(false)
	i, err := os.Stat(r.s.Path)
	if err != nil || i.Size() > 1<<26 {
		return func() {}
	}
	b, err := os.ReadFile(r.s.Path)
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	m := r.m.Clone()
	return func() {
		r.mustClose()
		if r.rng.Chance(1, 2) {
			os.Remove(r.s.Path)
		}
		if err := os.WriteFile(r.s.Path, b, 0o666); err != nil {
			panic(inconclusive(err.Error()))
		}
		r.m = m
		r.mustOpen(r.rng.Chance(1, 2))
		if sh := r.s.Shape(); sh != stats {
			r.c.Failf("stats", "%s: the stats of a copy put back in place differ: %v, before %v", r.s.Kind, sh, stats)
		}
		r.verify(true)
		r.c.Count("restored", 1)
		r.session("mixed", 100)
	}
}

// session runs a phase; the content is only compared after reopening, so that
// what the comparison may do to the store doesn't help.
func (r *Runner) session(name string, n int) {
	r.noVerify = true
	count, payload := r.m.Len(), r.m.payload
	r.phase(name, n)
	if d := r.m.Len() - count; r.rng.Chance(1, 2) && d < 2000 && d > -2000 {
		r.settle(count, payload)
	}
	r.noVerify = false
	if r.s.Ordered() && r.rng.Chance(1, 2) {
		r.beyond()
	}
	r.reopenChecked()
	r.c.Count("sessions", 1)
	if r.rng.Chance(1, 3) {
		// nothing happens in this session
		r.reopenChecked()
		r.c.Count("sessions.idle", 1)
	}
}

func (r *Runner) reopenChecked() {
	before := r.s.Shape()
	r.mustClose()
	r.mustOpen(r.rng.Chance(1, 2)) // the file exists: creating or not is the same
	after := r.s.Shape()
	if before != after {
		r.c.Failf("stats", "%s: the stats differ after reopening: %v, before %v", r.s.Kind, after, before)
	}
	if r.s.Ordered() {
		r.beyond()
		r.ranges(6)
	}
	r.verify(true)
	r.c.Count("reopens", 1)
}

func init() {
	rule := "A case is a history cut into sessions: each ends with Close, and after reopening (with and without leave to create) the stats and the whole content are compared with a reference map, by iterating and key by key, and over ranges; there are idle sessions, sessions of one operation, sessions that end with the counts they began with, the file is also moved, and an earlier copy of it put back in its place; in further cases it's opened by odd and relative names and through links, and the working directory, its name and its directory's name change until it's closed, or processes take turns with it, or hundreds of files are open at a time. Non-trivial: 10 sessions and 10 items. Distinct: by a hash of the contents and shapes."
	register("C06", Property{
		Rule:    rule,
		MustSee: []string{"sessions", "sessions.idle", "settled", "restored", "named", "processes", "crowd"},
		Cases: func(tier string, rng *Rng) []Case {
			ps := orderedPlans("od", thorough(tier))
			ps = append(ps, huntPlans(rng, pickN(tier, 10, 100))...)
			ps = append(ps, farPlans(0, "od", "bpt")...)
			ps = append(ps, append(tallPlans(pickN(tier, 1, 6), false, "od", "bpt"), wideTree("od"))...)
			ps = append(ps, randomPlans(rng, pickN(tier, 130, 1200), 12000, "od", "od", "od", "bpt")...)
			cs := append(planCases("real", ps, persistCase), twinCases(rng, pickN(tier, 10, 60), (*Runner).reopenChecked, "od", "bpt")...)
			cs = append(cs, namesCases(rng, pickN(tier, 12, 80), "od", "bpt")...)
			cs = append(cs, processesCases(rng, pickN(tier, 10, 60), "od", "bpt")...)
			cs = append(cs, crowdCases(pickN(tier, 2, 8), "od", "bpt")...)
			return append(cs, colossalCase("od", 16, 1<<28+130))
		},
	})
	register("C07", Property{
		Rule:    rule,
		MustSee: []string{"sessions", "sessions.idle", "settled", "restored", "named", "processes", "crowd"},
		Cases: func(tier string, rng *Rng) []Case {
			ps := append(hashPlans("dict", thorough(tier)), farPlans(0, "dict", "hm")...)
			wide := wideHash("dict")
			wide.Phases = steps("fill shrink:390 grow:390")
			ps = append(ps, wide)
			ps = append(ps, randomPlans(rng, pickN(tier, 130, 1200), 12000, "dict", "dict", "dict", "hm")...)
			cs := append(planCases("real", ps, persistCase), twinCases(rng, pickN(tier, 10, 60), (*Runner).reopenChecked, "dict", "hm")...)
			cs = append(cs, namesCases(rng, pickN(tier, 12, 80), "dict", "hm")...)
			cs = append(cs, processesCases(rng, pickN(tier, 10, 60), "dict", "hm")...)
			cs = append(cs, crowdCases(pickN(tier, 2, 8), "dict", "hm")...)
			return append(cs, colossalCase("dict", 16, 1<<28+130))
		},
	})
}
