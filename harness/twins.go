package main

import (
	"fmt"
	"strings"
)

// Twins are two stores of one plan in two files, used by turns. In half of the
// cases the same is done to both but for the bytes of the values, so that all
// things lie at the same addresses in both files: whatever is remembered of one
// must not come up in the other.

// chunky are the phases that may be cut into pieces.
var chunky = map[string]bool{"grow": true, "churn": true, "mixed": true, "resize": true, "shrink": true,
	"shrinkasc": true, "shrinkdesc": true, "flap": true, "edge": true, "noop": true}

func twinCases(rng *Rng, n int, look func(r *Runner), kinds ...string) []Case {
	var cs []Case
	for i := 0; i < n; i++ {
		p := randomPlan(rng, kinds, 1200)
		if p.Pool > 1000 {
			p.Pool = 1000
		}
		if p.Vals == "huge" {
			p.Vals = "big"
		}
		same := i&1 == 0
		cs = append(cs, Case{Name: fmt.Sprintf("real/twins#%d:%s same=%v", i, p, same), Variant: "real", Run: func(c *Ctx) {
			a := p.runner(c)
			b := closedRunner(c, p.Kind, p.Keys, p.Vals, p.Pool)
			b.pool, b.dist, b.id, b.s.Path = a.pool, p.Dist, 1<<40, c.Path("twin")
			b.mustOpen(true)
			rng := NewRng(c.Rng.U64())
			if same {
				*b.rng = *a.rng
			}
			a.noVerify, b.noVerify = true, true
			turns := func(f func(r *Runner)) {
				x, y := a, b
				if rng.Chance(1, 2) {
					x, y = b, a
				}
				c.Trace("-- one")
				f(x)
				c.Trace("-- the other")
				f(y)
				c.Count("turns", 1)
			}
			for _, st := range p.Phases {
				if !chunky[st.Name] {
					turns(func(r *Runner) { r.phase(st.Name, st.N) })
				} else {
					for left := st.N; left > 0; {
						n := rng.Range(1, 40)
						if n > left {
							n = left
						}
						turns(func(r *Runner) { r.phase(st.Name, n) })
						left -= n
					}
				}
				turns(look)
				if rng.Chance(1, 3) {
					turns(func(r *Runner) { r.reopen() })
				}
				if rng.Chance(1, 4) && strings.HasPrefix(st.Name, "shrink") {
					// one goes on alone
					a.phase("churn", 30)
					b.reopen()
				}
				turns(func(r *Runner) { r.verify(true) })
			}
			a.mustClose()
			b.phase("churn", 50)
			a.mustOpen(false)
			turns(look)
			turns(func(r *Runner) { r.verify(true) })
			turns(func(r *Runner) { r.mustClose() })
			c.Observe(uint64(c.counters["turns"]))
			c.Count("twins", 1)
			c.sample = fmt.Sprintf("%d turns, %d ops", c.counters["turns"], c.counters["ops"])
			if c.counters["ops"] > 500 {
				c.Nontrivial()
			}
		}})
	}
	return cs
}
