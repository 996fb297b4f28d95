package main

import (
	"fmt"
	"math"
)

// C12: the B+ tree stays one. C13: the hash map stays balanced.

// At rest a page has room for another record or separator of the largest size,
// and is loaded to 3/8 of that (less a record of the largest size at most).
const (
	recordMax      = recHead + keyInPage + valueInPage
	childMax       = childHead + keyInPage
	leafRoom       = pageSize - leafHead
	nonLeafRoom    = pageSize - nodeHead
	leafLoadMax    = leafRoom - recordMax
	nonLeafLoadMax = nonLeafRoom - childMax
	leafLoadMin    = (leafLoadMax - recordMax) * 3 / 8
	nonLeafLoadMin = (nonLeafLoadMax - childMax) * 3 / 8
)

func (r *Runner) lookTree(t *Tree) {
	c := r.c
	if sh := r.shape; t.Height != sh.Height || int(t.Leafs) != sh.Leafs || int(t.NonLeafs) != sh.NonLeafs {
		c.Failf("shape", "%s: the tree read is of height %d, %d leafs, %d non-leafs; told were %v", r.s.Kind, t.Height, t.Leafs, t.NonLeafs, sh)
	}
	for _, l := range t.LeafLoads {
		c.Max("leaf.load", int64(l))
		if l > leafLoadMax {
			c.Failf("leaf-load", "%s: a leaf of %d leafs is loaded with %d bytes; no room for another record of %d", r.s.Kind, t.Leafs, l, recordMax)
		}
		if t.Height > 1 {
			c.Max("leaf.free", int64(leafRoom-l))
			if l < leafLoadMin {
				c.Failf("leaf-load", "%s: a leaf of %d leafs is loaded with no more than %d bytes", r.s.Kind, t.Leafs, l)
			}
		}
	}
	for i, l := range t.NonLeafLoads {
		c.Max("nonleaf.load", int64(l))
		if l > nonLeafLoadMax {
			c.Failf("nonleaf-load", "%s: a non-leaf of %d is loaded with %d bytes; no room for another child of %d", r.s.Kind, t.NonLeafs, l, childMax)
		}
		if i != t.rootNonLeaf {
			c.Max("nonleaf.free", int64(nonLeafRoom-l))
			if l < nonLeafLoadMin {
				c.Failf("nonleaf-load", "%s: a non-leaf of %d is loaded with no more than %d bytes", r.s.Kind, t.NonLeafs, l)
			}
		}
	}
	c.Count("pages.read", int64(len(t.Pages)))
	c.Count("records.read", int64(len(t.Keys)))
	c.Max("height", int64(t.Height))
}

func (h *Hash) loadFactor() float64 { return float64(h.ItemCount) / float64(h.SlotCount) }

func (r *Runner) lookHash(h *Hash) {
	c := r.c
	if sh := r.shape; h.DirCount != sh.Dirs || h.SlotCount != sh.Slots {
		c.Failf("shape", "%s: the hash map read has %d directories, %d slots; told were %v", r.s.Kind, h.DirCount, h.SlotCount, sh)
	}
	c.Count("slots.read", int64(h.SlotCount))
	c.Count("items.read", int64(len(h.Items)))
	c.Max("chain", int64(h.MaxChain))
}

// checkLoad checks, from the stats alone, that the slots follow the items.
func (r *Runner) checkLoad() {
	sh := r.shape
	if n := float64(sh.Count) / float64(sh.Slots); n > math.Phi+1e-9 || sh.Slots > 1 && n < math.Phi/2-1e-9 {
		r.c.Failf("load-factor", "%s: %d items in %d slots", r.s.Kind, sh.Count, sh.Slots)
	}
	// a directory in reserve at most
	if need := (sh.Slots + slotsPerDir - 1) / slotsPerDir; sh.Dirs < need || sh.Dirs > need+1 || (sh.Slots == 1 && sh.Dirs > 1) {
		r.c.Failf("dir-count", "%s: %d directories for %d slots", r.s.Kind, sh.Dirs, sh.Slots)
	}
	r.c.Count("load.checked", 1)
}

func init() {
	register("C12", Property{
		Rule: "A case is a history on the real tree; every page is read by a reader of its own every few operations (of small trees) or phases: the order of the keys, the separators, the depth of the leafs, the list of the leafs, the layout and the load of the pages, the counts and the content are checked. Non-trivial: leafs both split and merged under 20 inspections. Distinct: by a hash of the contents and shapes.",
		Cases: func(tier string, rng *Rng) []Case {
			ps := orderedPlans("od", thorough(tier))
			ps = append(ps, orderedPlans("bpt", false)...)
			ps = append(ps, append(farPlans(2, "od", "bpt"), wideTree("od"))...)
			ps = append(ps, append(tallPlans(pickN(tier, 2, 6), false, "od"), tallPlans(pickN(tier, 2, 8), true, "bpt")...)...)
			ps = append(ps, randomPlans(rng, pickN(tier, 150, 1500), 12000, "bpt", "bpt", "od")...)
			ps = append(ps, huntPlans(rng, pickN(tier, 60, 600))...)
			return planCases("real", ps, func(c *Ctx, p Plan) {
				r := p.runner(c)
				r.noVerify = true
				if p.Kind == "bpt" {
					last := r.shape
					r.After = func(int, []byte, bool) {
						// the more often the smaller the tree is, and whenever
						// something uncommon has happened
						sh := r.shape
						odds := (sh.Leafs+sh.NonLeafs)*3 + sh.Count/20 + 2
						if sh.NonLeafs != last.NonLeafs || sh.Height != last.Height {
							odds = 1 + sh.Count/20000
						} else if sh.Leafs != last.Leafs {
							odds = 1 + odds/30
						}
						last = sh
						if r.rng.Chance(1, odds) {
							r.inspectTree(r.lookTree)
						}
					}
				}
				r.Phase = func(string) { r.inspectTree(r.lookTree) }
				r.hunted = func() { r.inspectTree(r.lookTree) }
				p.play(r)
				r.mustClose()
				c.sample = fmt.Sprintf("%d inspections of %d pages, %d records; max %v", c.counters["inspections"], c.counters["pages.read"], c.counters["records.read"], c.max)
				if c.counters["inspections"] >= 6 && c.counters["leaf.splits"] > 0 && c.counters["leaf.merges"] > 0 {
					c.Nontrivial()
				}
			})
		},
	})
	register("C13", Property{
		Rule: "A case is a history on the real hash map; after every operation the numbers of slots and directories are compared with the number of items, and every few operations (of small maps) or phases every slot is read by a reader of its own: each item is in the slot its hash sum says, once, slots and directories are whole, the counts and the content are checked. Non-trivial: slots both split and merged under 6 inspections. Distinct: by a hash of the contents and shapes.",
		Cases: func(tier string, rng *Rng) []Case {
			ps := hashPlans("dict", thorough(tier))
			ps = append(ps, hashPlans("hm", false)...)
			ps = append(ps, append(farPlans(2, "dict", "hm"), wideHash("hm"))...)
			ps = append(ps, randomPlans(rng, pickN(tier, 150, 1500), 12000, "hm", "hm", "dict")...)
			return planCases("real", ps, func(c *Ctx, p Plan) {
				r := p.runner(c)
				r.noVerify = true
				r.After = func(int, []byte, bool) {
					r.checkLoad()
					if p.Kind == "hm" && r.rng.Chance(1, r.shape.Count+5) {
						r.inspectHash(r.lookHash)
					}
				}
				r.Phase = func(string) { r.inspectHash(r.lookHash) }
				p.play(r)
				r.mustClose()
				c.sample = fmt.Sprintf("%d inspections of %d slots, %d items; max %v", c.counters["inspections"], c.counters["slots.read"], c.counters["items.read"], c.max)
				if c.counters["inspections"] >= 6 && c.counters["slot.splits"] > 0 && c.counters["slot.merges"] > 0 {
					c.Nontrivial()
				}
			})
		},
	})
}
