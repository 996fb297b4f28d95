package main

import (
	"fmt"
	"os"

	"github.com/roy2220/fsm"
)

// C10: how the storage is used. C11: what is given back to it.

// checkSpaces compares the spaces in use with the content.
func (r *Runner) checkSpaces(extra int) {
	c, m := r.c, r.m
	n := sanCount(r.s.Path)
	if !n.Tracked {
		c.Failf("untracked", "the file wasn't followed from its creation")
	}
	sh := r.shape
	if r.s.Ordered() {
		if n.Aligned != sh.Leafs+sh.NonLeafs {
			c.Failf("pages", "%s: %d pages are in use by a tree of %v", r.s.Kind, n.Aligned, sh)
		}
		if n.Spaces != m.overs+extra {
			c.Failf("spaces", "%s: %d spaces are in use for %d keys and values that don't fit into pages (%d more are right)", r.s.Kind, n.Spaces, m.overs, extra)
		}
		if max := int64(m.overLen + (m.overs+extra)*10 + extra*64); n.SpaceRequest > max {
			c.Failf("space-size", "%s: %d bytes were asked for; %d would do", r.s.Kind, n.SpaceRequest, max)
		}
	} else {
		used := sh.Slots
		if sh.Count < used {
			used = sh.Count
		}
		if n.Aligned != 0 {
			c.Failf("pages", "%s: %d pages are in use by a hash map", r.s.Kind, n.Aligned)
		}
		if n.Spaces > 1+sh.Dirs+used+extra || n.Spaces < 1+sh.Dirs+extra {
			c.Failf("spaces", "%s: %d spaces are in use by a hash map of %v (%d more are right)", r.s.Kind, n.Spaces, sh, extra)
		}
		table := 64
		for table < sh.Dirs*32 {
			table *= 2
		}
		if max := int64(table + sh.Dirs*8*slotsPerDir + m.payload + sh.Count*40 + used*20 + extra*128); n.SpaceRequest > max {
			c.Failf("space-size", "%s: %d bytes were asked for; %d would do", r.s.Kind, n.SpaceRequest, max)
		}
	}
	c.Count("spaces.checked", 1)
}

// checkReachable compares the spaces in use with those the structure refers to.
func (r *Runner) checkReachable() {
	c := r.c
	look := func(info int64, pages, spaces map[int64]bool) {
		live, ok := sanLive(r.s.Path)
		if !ok {
			c.Failf("untracked", "the file wasn't followed from its creation")
		}
		n := 0
		for _, s := range live {
			switch {
			case s.Aligned && pages[s.Addr], !s.Aligned && spaces[s.Addr], s.Addr == info:
				n++
			default:
				c.Failf("leak", "%s: a space of %d bytes at %#x (number %d allocated) is in use, but nothing refers to it", r.s.Kind, s.Request, s.Addr, s.Serial)
			}
		}
		if n != len(pages)+len(spaces)+1 {
			c.Failf("dangling", "%s: %d of %d spaces referred to are in use", r.s.Kind, n, len(pages)+len(spaces)+1)
		}
		c.Count("spaces.reached", int64(n))
	}
	if r.s.Ordered() {
		r.inspectTree(func(t *Tree) { look(t.info, t.Pages, t.Spaces) })
	} else {
		r.inspectHash(func(h *Hash) { look(h.info, nil, h.Spaces) })
	}
}

// destroy destroys a structure that is all there is in its file.
func (r *Runner) destroy() {
	c, s := r.c, r.s
	if s.Kind == "bpt" {
		s.bt.Destroy()
	} else {
		s.hm.Destroy()
	}
	r.m = NewModel()
	c.Count("destroys", 1)
	if variant == "san" {
		if n := sanCount(s.Path); n.Spaces+n.Aligned != 0 {
			live, _ := sanLive(s.Path)
			c.Failf("destroy-leak", "%s: %d spaces are in use after Destroy, the first of %d bytes, number %d allocated", s.Kind, len(live), live[0].Request, live[0].Serial)
		}
	}
}

func (r *Runner) create() {
	if r.s.Kind == "bpt" {
		r.s.bt.Create()
	} else {
		r.s.hm.Create()
	}
	r.shape = r.s.Shape()
}

func reclaimSan(c *Ctx, p Plan) {
	r := p.runner(c)
	r.noVerify = true
	r.checkSpaces(0)
	r.After = func(int, []byte, bool) { r.checkSpaces(0) }
	r.Phase = func(string) {
		r.checkSpaces(0)
		r.checkReachable()
		r.checkSpaces(0)
		if r.m.Len() == 0 {
			c.Count("emptied", 1)
		}
	}
	p.play(r)
	for i := 0; i < 5; i++ {
		r.reopen()
		r.checkSpaces(0)
	}
	if p.Kind == "bpt" || p.Kind == "hm" {
		r.destroy()
		r.create()
		r.phase("grow", 300)
		r.verify(true)
		r.destroy()
		r.create()
	}
	r.After, r.Phase = nil, nil
	r.phase("grow", 100)
	r.phase("drain", 0)
	r.checkReachable()
	r.mustClose()
	sanReport(c)
	c.sample = fmt.Sprintf("%d times compared, %d spaces referred to, max %v", c.counters["spaces.checked"], c.counters["spaces.reached"], c.max)
	if c.counters["san.frees"] > 100 {
		c.Nontrivial()
	}
}

// reclaimReal watches the storage stats that every user sees.
func reclaimReal(c *Ctx, p Plan) {
	r := p.runner(c)
	r.noVerify = true
	fresh := r.s.FSM().AllocatedSpaceSize
	var rounds []int
	r.Phase = func(string) {
		// sessions in which nothing happens
		var first fsm.Stats
		var size int64
		for i := 0; i < 4; i++ {
			r.reopen()
			st := r.s.FSM()
			if i == 1 {
				first = st
				size = fileSize(r.s.Path)
			} else if i > 1 && (st.AllocatedSpaceSize > first.AllocatedSpaceSize || st.UsedSpaceSize > first.UsedSpaceSize) {
				c.Failf("idle-growth", "%s: session %d in which nothing happened grew the storage: %+v, before %+v", r.s.Kind, i, st, first)
			}
		}
		if n := fileSize(r.s.Path); n > size {
			c.Failf("idle-growth", "%s: sessions in which nothing happened grew the file to %d bytes from %d", r.s.Kind, n, size)
		}
		c.Count("sessions.idle", 4)
	}
	for round := 0; round < 3; round++ {
		p.play(r)
		r.phase("drain", 0)
		st := r.s.FSM()
		rounds = append(rounds, st.AllocatedSpaceSize)
		limit := fresh
		if c.max["dirs"] > 8 {
			// the table of directories has been made anew, maybe in another
			// chunk (of 1 MiB) of the allocator than the directory
			limit += 1 << 20
		}
		if st.AllocatedSpaceSize > limit {
			c.Failf("not-reclaimed", "%s: emptied, it has %d bytes allocated; fresh, it had %d", r.s.Kind, st.AllocatedSpaceSize, fresh)
		}
		c.Count("emptied", 1)
		c.Max("left", int64(st.AllocatedSpaceSize-fresh))
	}
	if p.Kind == "bpt" || p.Kind == "hm" {
		r.destroy()
		if st := r.s.FSM(); st.AllocatedSpaceSize != 0 {
			c.Failf("destroy-leak", "%s: %d bytes are allocated after Destroy of an emptied one", r.s.Kind, st.AllocatedSpaceSize)
		}
		r.create()
		r.phase("fill", 1<<30)
		r.destroy()
		if st := r.s.FSM(); st.AllocatedSpaceSize != 0 {
			c.Failf("destroy-leak", "%s: %d bytes are allocated after Destroy", r.s.Kind, st.AllocatedSpaceSize)
		}
		r.create()
	}
	r.mustClose()
	c.sample = fmt.Sprintf("%d bytes allocated fresh, %v when emptied; max %v", fresh, rounds, c.max)
	structural(c)
}

func fileSize(path string) int64 {
	st, err := os.Stat(path)
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	return st.Size()
}

// sanPlans are plans of all kinds that are small enough for the sanitizer.
func sanPlans(tier string, rng *Rng, n, ops int) []Plan {
	var ps []Plan
	for _, p := range append(orderedPlans("bpt", false), hashPlans("hm", false)...) {
		// past eight slot directories the table of them moves
		if p.Cost < 3 || p.Kind == "hm" && p.Cost == 3 || thorough(tier) {
			ps = append(ps, p)
		}
	}
	return append(ps, randomPlans(rng, n, ops, "od", "bpt", "dict", "hm")...)
}

func init() {
	register("C10", Property{
		Rule:    "A case is a history run on the sanitizing storage (see DESIGN.md): every allocation moves the mapping and makes all views handed out earlier fault, spaces are filled with garbage before and after use, views end where their space ends and every free and access is looked up in a table of what is in use. Results are compared with a reference map as well. Non-trivial: 1000 allocations and 100 frees. Distinct: by a hash of the contents and shapes.",
		MustSee: []string{"san.remaps", "san.frees", "leaf.splits", "leaf.merges", "slot.splits", "slot.merges", "nonleaf.adds", "nonleaf.removes", "dir.adds", "dir.removes", "destroys"},
		Cases: func(tier string, rng *Rng) []Case {
			ps := append(sanPlans(tier, rng, pickN(tier, 150, 1500), 8000), huntPlans(rng, pickN(tier, 16, 200))...)
			ps = append(ps, tallPlans(pickN(tier, 1, 6), false, "bpt")...)
			return planCases("san", ps, func(c *Ctx, p Plan) {
				r := p.runner(c)
				r.Phase = func(string) {
					if r.rng.Chance(1, 2) {
						r.reopen()
						r.verify(false)
					}
					if r.s.Ordered() {
						r.ranges(12)
						r.parts(20, 2)
					} else {
						r.scanWithUpdates()
					}
				}
				p.play(r)
				if p.Kind == "bpt" || p.Kind == "hm" {
					r.destroy()
					r.create()
					r.phase("grow", 200)
				}
				if !sanCount(r.s.Path).Tracked {
					panic(inconclusive("the file wasn't followed from its creation"))
				}
				r.mustClose()
				sanReport(c)
				c.sample = fmt.Sprintf("%d allocations, %d frees, %d accesses, %d times moved", c.counters["san.allocs"], c.counters["san.frees"], c.counters["san.accesses"], c.counters["san.remaps"])
				if c.counters["san.allocs"] > 1000 && c.counters["san.frees"] > 100 {
					c.Nontrivial()
				}
			})
		},
	})
	register("C11", Property{
		Rule:    "A case is a history. On the sanitizing storage, after every operation the number and size of the spaces in use are compared with what the content needs, and after every phase the set of spaces in use with those that the structure refers to, as found by a reader of its own; Destroy must leave nothing. On the real storage, the stats are watched over idle sessions and when the store is emptied, three times over. Non-trivial: 100 frees, or leafs or slots both added and removed. Distinct: by a hash of the contents and shapes.",
		MustSee: []string{"emptied", "destroys", "sessions.idle", "leaf.merges", "slot.merges", "dir.removes"},
		Cases: func(tier string, rng *Rng) []Case {
			cs := planCases("san", append(sanPlans(tier, rng, pickN(tier, 100, 1000), 6000), huntPlans(rng, pickN(tier, 8, 100))...), reclaimSan)
			var ps []Plan
			for _, p := range append(orderedPlans("od", false), hashPlans("dict", false)...) {
				if p.Cost < 3 {
					ps = append(ps, p)
				}
			}
			for _, p := range append(orderedPlans("bpt", false), hashPlans("hm", false)...) {
				if p.Cost == 1 || p.Cost >= 3 && (p.Kind == "hm" || thorough(tier)) {
					ps = append(ps, p)
				}
			}
			ps = append(ps, randomPlans(rng, pickN(tier, 40, 400), 4000, "od", "bpt", "dict", "hm")...)
			return append(cs, planCases("real", ps, reclaimReal)...)
		},
	})
}
