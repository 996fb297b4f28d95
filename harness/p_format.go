package main

import "fmt"

// C17: files of other builds of the library are understood, and theirs.

func formatCase(c *Ctx, p Plan) {
	r := p.runner(c)
	old, other := "fbpt", []string{"fbpt", "od", "bpt"}
	if !r.s.Ordered() {
		old, other = "fhm", []string{"fhm", "dict", "hm"}
	}
	// who creates the file
	if p.Kind == old {
		c.Count("created.old", 1)
	} else {
		c.Count("created.new", 1)
	}
	r.noVerify = true
	turn := func() {
		before := r.s.Kind
		shape := r.s.Shape()
		r.mustClose()
		for r.s.Kind == before || before != old && r.s.Kind != old && r.rng.Chance(3, 4) {
			r.s.Kind = other[r.rng.Intn(len(other))]
		}
		r.mustOpen(false)
		if sh := r.s.Shape(); sh != shape {
			c.Failf("format", "%s tells %v of what %s wrote, which told %v", r.s.Kind, sh, before, shape)
		}
		c.Count("sessions", 1)
		c.Count("turn."+before+"."+r.s.Kind, 1)
	}
	for _, st := range p.Phases {
		n := st.N
		parts := 1
		if n != 1<<30 && n > 200 {
			switch st.Name {
			case "grow", "churn", "mixed", "resize", "edge", "shrink", "shrinkasc", "shrinkdesc":
				parts = r.rng.Range(2, 5)
			}
		}
		for i := 0; i < parts; i++ {
			r.phase(st.Name, n/parts)
			turn()
			r.verify(true)
		}
	}
	for i := 0; i < 6; i++ {
		r.phase("churn", 5)
		turn()
		r.verify(false)
	}
	// and what the readers, which know the format only, make of it
	for r.s.Kind == old {
		turn()
	}
	if r.s.Ordered() {
		r.inspectTree(func(*Tree) {})
	} else {
		r.inspectHash(func(*Hash) {})
	}
	r.mustClose()
	c.sample = fmt.Sprintf("%d sessions by turns, %d ops, %d items compared; max %v", c.counters["sessions"], c.counters["ops"], c.counters["verified.items"], c.max)
	if c.counters["sessions"] >= 8 && c.max["items"] >= 10 {
		c.Nontrivial()
	}
}

func init() {
	register("C17", Property{
		Rule:    "A case is a history cut into sessions, each with Close at its end, in which the code under test and a copy kept of the code that defined the format take turns on one file; after each the stats and the whole content are compared with a reference map by whoever comes next, and in the end by a reader written from the format. Non-trivial: 8 sessions and 10 items. Distinct: by a hash of the contents and shapes.",
		MustSee: []string{"created.old", "created.new", "turn.fbpt.od", "turn.od.fbpt", "turn.fbpt.bpt", "turn.fhm.dict", "turn.dict.fhm", "turn.fhm.hm", "leaf.splits", "leaf.merges", "nonleaf.removes", "slot.splits", "slot.merges", "dir.removes", "inspections"},
		Cases: func(tier string, rng *Rng) []Case {
			ps := append(orderedPlans("od", thorough(tier)), hashPlans("dict", thorough(tier))...)
			ps = append(ps, randomPlans(rng, pickN(tier, 160, 1500), 9000, "od", "fbpt", "dict", "fhm")...)
			ps = append(ps, farPlans(1, "od", "dict")...)
			ps = append(ps, tallPlans(pickN(tier, 1, 6), false, "od")...)
			for i := range ps {
				if i%3 == 0 {
					ps[i].Kind = map[string]string{"od": "fbpt", "dict": "fhm"}[ps[i].Kind]
					if ps[i].Kind == "" {
						ps[i].Kind = "fbpt"
					}
				}
			}
			return planCases("real", ps, formatCase)
		},
	})
}
