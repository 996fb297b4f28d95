package main

import "fmt"

// C01 and C02: a dictionary is a map.

func init() {
	run := func(c *Ctx, p Plan) {
		r := p.runner(c)
		p.play(r)
		r.mustClose()
		c.sample = fmt.Sprintf("%d ops, ended holding %d items; max %v", c.counters["ops"], r.m.Len(), c.max)
		structural(c)
	}
	register("C01", Property{
		Rule:    "A case is a history (plan: kind of store, class of keys and values, phases of operations drawn by seed) run on the real tree; every result is compared with a reference map, the whole content after each phase. Non-trivial: leafs were both split and merged, or over 1000 results compared on overflowing keys or values. Distinct: by a hash of the contents and shapes after the phases.",
		MustSee: []string{"values.related"},
		Cases: func(tier string, rng *Rng) []Case {
			ps := orderedPlans("od", thorough(tier))
			ps = append(ps, orderedPlans("bpt", false)[:14]...)
			ps = append(ps, farPlans(1, "od", "bpt")...)
			ps = append(ps, append(tallPlans(pickN(tier, 2, 6), false, "od"), tallPlans(pickN(tier, 2, 8), true, "bpt")...)...)
			ps = append(ps, randomPlans(rng, pickN(tier, 160, 1500), 20000, "od", "od", "bpt")...)
			ps = append(ps, huntPlans(rng, pickN(tier, 60, 600))...)
			cs := append(planCases("real", ps, run), twinCases(rng, pickN(tier, 10, 60), func(*Runner) {}, "od", "bpt")...)
			return append(cs, colossalCase("od", 0, 1<<28+130, 1<<31+300))
		},
	})
	register("C02", Property{
		Rule:    "A case is a history (plan: kind of store, class of keys and values, phases of operations drawn by seed) run on the real hash map; every result is compared with a reference map, the whole content after each phase. Non-trivial: slots were both split and merged. Distinct: by a hash of the contents and shapes after the phases.",
		MustSee: []string{"values.related"},
		Cases: func(tier string, rng *Rng) []Case {
			ps := hashPlans("dict", thorough(tier))
			ps = append(ps, hashPlans("hm", false)[:13]...)
			ps = append(ps, append(farPlans(1, "dict", "hm"), wideHash("dict"))...)
			ps = append(ps, randomPlans(rng, pickN(tier, 160, 1500), 20000, "dict", "dict", "hm")...)
			cs := append(planCases("real", ps, run), twinCases(rng, pickN(tier, 10, 60), func(*Runner) {}, "dict", "hm")...)
			return append(cs, colossalCase("dict", 0, 1<<28+9, 1<<31+300))
		},
	})
}

// structural marks a case as non-trivial if the structure grew and shrank.
func structural(c *Ctx) {
	n := c.counters
	if n["leaf.splits"] > 0 && n["leaf.merges"] > 0 || n["slot.splits"] > 0 && n["slot.merges"] > 0 ||
		n["ops.long-key"]+n["ops.long-value"] > 1000 {
		c.Nontrivial()
	}
}
