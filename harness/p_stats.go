package main

import (
	"fmt"
	"hash/crc64"
	"io"
	"os"
)

// C08: stats. C09: what changes nothing.

func (r *Runner) checkStats() {
	c := r.c
	sh := r.s.Shape()
	if sh.Count != r.m.Len() {
		c.Failf("count", "%s tells of %d items and holds %d", r.s.Kind, sh.Count, r.m.Len())
	}
	if sh.Payload != r.m.payload {
		c.Failf("payload", "%s tells of a payload of %d bytes and holds %d", r.s.Kind, sh.Payload, r.m.payload)
	}
	if r.s.Ordered() {
		if sh.Height < 1 || sh.Leafs < 1 || sh.NonLeafs < 0 {
			c.Failf("shape", "%s tells of %v", r.s.Kind, sh)
		}
		if (sh.Height == 1) != (sh.Leafs == 1) || (sh.Height == 1) != (sh.NonLeafs == 0) || sh.NonLeafs < sh.Height-1 {
			c.Failf("shape", "%s tells of a tree that can't be: %v", r.s.Kind, sh)
		}
	} else {
		if sh.Dirs < 1 || sh.Slots < 1 || sh.Slots > sh.Dirs<<12 {
			c.Failf("shape", "%s tells of slots that can't be: %v", r.s.Kind, sh)
		}
	}
	c.Count("stats.checked", 1)
}

// checkFSM checks the stats of the file storage that dictionaries pass on.
func (r *Runner) checkFSM() {
	st := r.s.FSM()
	if st.AllocatedSpaceSize > st.UsedSpaceSize || st.UsedSpaceSize > st.MappedSpaceSize || st.AllocatedSpaceSize <= 0 {
		r.c.Failf("fsm-stats", "%s tells of a storage that can't be: %+v", r.s.Kind, st)
	}
	if r.s.Ordered() {
		sh := r.s.Shape()
		if min := (sh.Leafs + sh.NonLeafs) * 8192; st.AllocatedSpaceSize < min {
			r.c.Failf("fsm-stats", "%s tells of %d bytes allocated, but has %d pages", r.s.Kind, st.AllocatedSpaceSize, sh.Leafs+sh.NonLeafs)
		}
	}
	if st.AllocatedSpaceSize < r.m.payload/4 {
		r.c.Failf("fsm-stats", "%s tells of %d bytes allocated for a payload of %d", r.s.Kind, st.AllocatedSpaceSize, r.m.payload)
	}
}

// checkStored compares the stats told with what is stored.
func (r *Runner) checkStored() {
	c, sh := r.c, r.s.Shape()
	if r.s.Ordered() {
		r.inspectTree(func(t *Tree) {
			if t.Height != sh.Height || len(t.LeafLoads) != sh.Leafs || len(t.NonLeafLoads) != sh.NonLeafs {
				c.Failf("shape", "%s tells of %v; stored is a tree of height %d, %d leafs and %d non-leafs", r.s.Kind, sh, t.Height, len(t.LeafLoads), len(t.NonLeafLoads))
			}
		})
	} else {
		min, max := 0, 0
		if r.s.Kind == "hm" {
			min, max = r.s.hm.MinNumberOfSlots(), r.s.hm.MaxNumberOfSlotDirs()
		}
		r.inspectHash(func(h *Hash) {
			if r.s.Kind == "hm" && (min != 1<<uint(h.MinSlotShift) || max != 1<<uint(h.MaxDirShift)) {
				c.Failf("shape", "hm tells of at least %d slots and at most %d directories; stored are 2^%d and 2^%d", min, max, h.MinSlotShift, h.MaxDirShift)
			}
			if h.DirCount != sh.Dirs || h.SlotCount != sh.Slots {
				c.Failf("shape", "%s tells of %v; stored are %d directories and %d slots", r.s.Kind, sh, h.DirCount, h.SlotCount)
			}
		})
	}
	c.Count("stored.compared", 1)
}

var crcTable = crc64.MakeTable(crc64.ECMA)

// fileSum sums up the file as it is, the pages mapped included.
func fileSum(path string) (uint64, int64) {
	f, err := os.Open(path)
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	defer f.Close()
	h := crc64.New(crcTable)
	n, err := io.Copy(h, f)
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	return h.Sum64(), n
}

// idle runs what must change nothing, and looks whether it did.
func (r *Runner) idle(n int) {
	c := r.c
	sum, size := fileSum(r.s.Path)
	shape, st := r.s.Shape(), r.s.FSM()
	reading := func(what string) {
		if sh := r.s.Shape(); sh != shape {
			c.Failf("changed-stats", "%s of %s changed the stats: %v, before %v", what, r.s.Kind, sh, shape)
		}
		if s := r.s.FSM(); s != st {
			c.Failf("changed-storage", "%s of %s changed the storage: %+v, before %+v", what, r.s.Kind, s, st)
		}
		s2, n2 := fileSum(r.s.Path)
		if s2 != sum || n2 != size {
			c.Failf("changed-file", "%s of %s changed the file (%d bytes, before %d)", what, r.s.Kind, n2, size)
		}
		c.Count("image.compared", 1)
	}
	// one by one
	for i := 0; i < 12; i++ {
		live, ok := r.pickLive()
		absent := r.absent()
		if ok {
			r.do(opSetIfNotExists, live, r.newValue(live), i&1 == 0)
			reading("SetIfNotExists of a present key")
			r.do(opTest, live, nil, i&1 == 0)
			reading("Test of a present key")
		}
		if absent != nil {
			r.do(opSetIfExists, absent, r.newValue(absent), i&1 == 0)
			reading("SetIfExists of an absent key")
			r.do(opClear, absent, nil, i&1 == 0)
			reading("Clear of an absent key")
			r.do(opTest, absent, nil, i&1 == 0)
			reading("Test of an absent key")
		}
		c.Count("idle.ops", 5)
	}
	// many
	r.noVerify = true
	for i := 0; i < n; i++ {
		live, ok := r.pickLive()
		switch r.rng.Intn(5) {
		case 0:
			if ok {
				r.do(opSetIfNotExists, live, r.newValue(live), r.ret())
			}
		case 1:
			r.do(opTest, r.pick(), nil, r.ret())
		default:
			if k := r.absent(); k != nil {
				r.do([]int{opSetIfExists, opClear, opTest}[i%3], k, r.newValue(k), r.ret())
			}
		}
		c.Count("idle.ops", 1)
	}
	reading("a series of refused operations")
	if r.s.Ordered() {
		r.ranges(20)
		r.parts(20, 1)
		reading("iterating")
	} else {
		r.scans()
		reading("scanning")
	}
	r.verify(true)
	reading("reading everything")
}

func init() {
	register("C08", Property{
		Rule: "A case is a history on the real tree or hash map; after every operation the number of items and the payload told are compared with a reference map and the shape told is checked for consistency, at the end of phases the storage stats too, and the shape with that of the structure as stored, read by a reader of its own. Non-trivial: 1000 operations, with leafs or slots added and removed. Distinct: by a hash of the contents and shapes.",
		Cases: func(tier string, rng *Rng) []Case {
			ps := append(orderedPlans("od", thorough(tier)), hashPlans("dict", thorough(tier))...)
			ps = append(ps, hashPlans("hm", false)[13:15]...)
			ps = append(ps, huntPlans(rng, pickN(tier, 12, 100))...)
			ps = append(ps, farPlans(0, "bpt", "hm")...)
			ps = append(ps, append(tallPlans(pickN(tier, 1, 6), false, "od", "bpt"), wideTree("bpt"))...)
			ps = append(ps, randomPlans(rng, pickN(tier, 200, 1500), 12000, "od", "dict", "od", "dict", "bpt", "hm")...)
			cs := planCases("real", ps, func(c *Ctx, p Plan) {
				r := p.runner(c)
				r.noVerify = true
				r.hunted = r.checkStored
				r.checkStats()
				r.After = func(int, []byte, bool) { r.checkStats() }
				r.Phase = func(string) {
					r.checkStats()
					r.checkFSM()
					r.checkStored()
					if r.rng.Chance(1, 2) {
						r.reopen()
						r.checkStats()
						r.checkFSM()
					}
				}
				p.play(r)
				r.mustClose()
				c.sample = fmt.Sprintf("%d times compared, max %v", c.counters["stats.checked"], c.max)
				if c.counters["ops"] > 1000 {
					structural(c)
				}
			})
			return append(cs, colossalCase("od", 16, 1<<28+130), colossalCase("hm", 0, 1<<31+300))
		},
	})
	register("C09", Property{
		Rule: "A case is a history on the real tree or hash map; after each phase refused operations (of absent and of present keys), reads, iterations and scans are run, and the stats, the storage stats and a checksum of the file with its mapped pages are compared with those before, the content with a reference map. Non-trivial: 500 such operations on 10 or more items. Distinct: by a hash of the contents and shapes.",
		Cases: func(tier string, rng *Rng) []Case {
			var ps []Plan
			for _, kind := range []string{"od", "dict"} {
				ps = append(ps,
					Plan{Kind: kind, Keys: "tiny", Vals: "mixed", Pool: 300, Phases: steps("fill:1 fill:3 churn:400 thin:80 drain")},
					Plan{Kind: kind, Keys: "bound", Vals: "bound", Pool: 3000, Phases: steps("fill thin:1000 mixed:2000 shrink:1000")},
					Plan{Kind: kind, Keys: "long", Vals: "bound", Pool: 3000, Phases: steps("fill thin:1000 mixed:2000 shrink:1000")},
					Plan{Kind: kind, Keys: "prefix", Vals: "bound", Pool: 2000, Phases: steps("fill thin:500 mixed:2000 shrink:500")},
					Plan{Kind: kind, Keys: "collide", Vals: "bound", Pool: 600, Phases: steps("fill thin:200 mixed:1000 shrink:100")},
					Plan{Kind: kind, Keys: "num", Vals: "page", Pool: 12000, Phases: steps("fill shrink:8000")},
					Plan{Kind: kind, Keys: "sentinel", Vals: "mixed", Pool: 1000, Phases: steps("fill:15 fill thin:300 mixed:1000")},
				)
			}
			ps = append(ps, randomPlans(rng, pickN(tier, 70, 700), 3000, "od", "dict", "bpt", "hm")...)
			return planCases("real", ps, func(c *Ctx, p Plan) {
				r := p.runner(c)
				r.noVerify = true
				r.idle(50)
				r.Phase = func(string) {
					r.Phase, r.noVerify = nil, true
					r.idle(300)
				}
				ph := r.Phase
				for _, st := range p.Phases {
					r.Phase = nil
					r.phase(st.Name, st.N)
					ph("")
					r.noVerify = true
				}
				r.mustClose()
				c.sample = fmt.Sprintf("%d operations that must change nothing, %d images compared", c.counters["idle.ops"], c.counters["image.compared"])
				if c.counters["idle.ops"] >= 500 && c.max["items"] >= 10 {
					c.Nontrivial()
				}
			})
		},
	})
}
