package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"runtime"

	"github.com/roy2220/plainkv/bptree"
)

// C20: an operation touches a path of the tree, or a chain of the hash map,
// however much there is.

// touching runs f and returns how many distinct spaces and pages it touched.
func (r *Runner) touching(f func()) (spaces, pages int) {
	sanBegin(r.s.Path)
	n := sanAccesses()
	f()
	n = sanAccesses() - n
	all, aligned := sanEnd(r.s.Path)
	// the same ones are not to be gone back to over and over
	r.c.Max("accesses.per.touched", n/int64(all+1))
	r.c.Max("accesses", n)
	r.accesses = int(n)
	return all - aligned, aligned
}

// sessionMax is how many spaces opening or closing may touch: what is made,
// stored or loaded is the root of the structure and where that is told.
const sessionMax = 8

// sessionCost closes and opens, which costs the same however much there is.
func (r *Runner) sessionCost() {
	c := r.c
	before := r.shape
	ended := sanClosing(r.s.Path)
	r.mustClose()
	closing, _ := ended()
	sanOpening(true)
	r.mustOpen(false)
	sanOpening(false)
	opening, _ := sanEnd(r.s.Path)
	c.Max("Close.spaces", int64(closing))
	c.Max("Open.spaces", int64(opening))
	c.Count("cost.sessions", 1)
	for what, n := range map[string]int{"closing": closing, "opening": opening} {
		if n > sessionMax {
			c.Failf("cost", "%s: %s touched %d spaces, with %d keys there", r.s.Kind, what, n, before.Count)
		}
	}
}

// Keys and values kept in spaces of their own are read when they are compared:
// a binary search in each page at most.
var searchMax = bits.Len(uint(leafRoom/(recHead+2))) + 2

func (r *Runner) costTree(what string, changes bool, f func()) {
	c := r.c
	h := r.s.Shape().Height
	if n := r.shape.Height; n > h {
		h = n
	}
	spaces, pages := r.touching(f)
	if n := r.s.Shape().Height; n > h {
		h = n
	}
	maxPages := h
	maxSpaces := h*searchMax + 4
	if changes {
		// each level may split into three or shift with both neighbours, and the
		// leafs are linked to theirs
		maxPages = 5*h + 4
		maxSpaces = 8*h*searchMax + 8
	}
	c.Max(fmt.Sprintf("%s.pages.height%d", what, h), int64(pages))
	c.Max(fmt.Sprintf("%s.spaces.height%d", what, h), int64(spaces))
	c.Count("cost.checked", 1)
	if pages > maxPages {
		c.Failf("cost", "%s: %s touched %d pages of a tree of height %d with %d leafs", r.s.Kind, what, pages, h, r.s.Shape().Leafs)
	}
	if spaces > maxSpaces {
		c.Failf("cost", "%s: %s touched %d spaces of a tree of height %d with %d records", r.s.Kind, what, spaces, h, r.s.Shape().Count)
	}
	if r.accesses > 16*(maxPages+maxSpaces) {
		c.Failf("cost", "%s: %s accessed spaces %d times in a tree of height %d with %d records", r.s.Kind, what, r.accesses, h, r.s.Shape().Count)
	}
}

func (r *Runner) costHash(what string, chain int, f func()) {
	c := r.c
	spaces, pages := r.touching(f)
	// the slot and what is in it; a slot split or merged; directories
	maxSpaces := 4*(chain+2) + 8
	if what == "Test" || what == "Scan" {
		maxSpaces = chain + 6
	}
	c.Max(what+".spaces", int64(spaces+pages))
	c.Count("cost.checked", 1)
	if spaces+pages > maxSpaces {
		c.Failf("cost", "%s: %s touched %d spaces of a hash map of %d slots, %d items, %d in a slot at most", r.s.Kind, what, spaces+pages, r.s.Shape().Slots, r.s.Shape().Count, chain)
	}
	if r.accesses > 16*maxSpaces {
		c.Failf("cost", "%s: %s accessed spaces %d times in a hash map of %d slots, %d items, %d in a slot at most", r.s.Kind, what, r.accesses, r.s.Shape().Slots, r.s.Shape().Count, chain)
	}
}

func treeCost(c *Ctx, p Plan) {
	r := p.runner(c)
	r.noVerify = true
	r.apply = func(op int, k, v []byte, ret bool) (out []byte, ok int) {
		r.costTree(opNames[op], op != opTest, func() { out, ok = r.s.Apply(op, k, v, ret) })
		return
	}
	r.Phase = func(string) {
		for i := 0; i < 200; i++ {
			r.do(opTest, r.pick(), nil, true)
			if k := r.absent(); k != nil {
				r.do(opTest, k, nil, true)
			}
		}
		for i := 0; i < 40; i++ {
			lo, hi := r.bound(), r.bound()
			r.rangeCost(lo.key, hi.key)
		}
		r.rangeCost(bptree.MinKey, bptree.MaxKey)
		r.costTree("Stats", false, func() { r.s.Shape() })
		r.sessionCost()
	}
	r.hunted = func() {}
	p.play(r)
	r.mustClose()
	sanReport(c)
	c.sample = fmt.Sprintf("%d operations, max %v", c.counters["cost.checked"], c.max)
	if c.max["height"] >= 2 && c.counters["cost.checked"] > 1000 {
		c.Nontrivial()
	}
}

// rangeCost starts an iteration, each of whose ends is looked up, and goes on.
func (r *Runner) rangeCost(lo, hi []byte) {
	c := r.c
	for _, asc := range []bool{true, false} {
		var it bptree.Iterator
		h := r.s.Shape().Height
		spaces, pages := r.touching(func() { it = r.s.Range(asc, lo, hi) })
		c.Max(fmt.Sprintf("Range.pages.height%d", h), int64(pages))
		if pages > 2*h+2 || spaces > 2*h*searchMax+8 {
			c.Failf("cost", "%s: starting a range touched %d pages and %d spaces of a tree of height %d with %d leafs", r.s.Kind, pages, spaces, h, r.s.Shape().Leafs)
		}
		for n := r.rng.Intn(200); n > 0 && !it.IsAtEnd(); n-- {
			step()
			spaces, pages := r.touching(func() {
				it.ReadRecordAll()
				it.Advance()
			})
			c.Max("Advance.pages", int64(pages))
			if pages > 3 || spaces > 4 {
				c.Failf("cost", "%s: reading a record and advancing touched %d pages and %d spaces", r.s.Kind, pages, spaces)
			}
			c.Count("cost.checked", 1)
		}
		c.Count("ranges", 1)
	}
}

func hashCost(c *Ctx, p Plan) {
	r := p.runner(c)
	r.noVerify = true
	chain, since := 0, 0
	measure := func() {
		r.inspectHash(func(h *Hash) { chain = h.MaxChain })
		since = 0
	}
	measure()
	r.apply = func(op int, k, v []byte, ret bool) (out []byte, ok int) {
		// a chain grows by one each operation, at most
		if since > 40 && (since > r.shape.Count/4 || since > 2000) {
			measure()
		}
		since++
		n := chain + since
		if since > 8 {
			n = chain + 8 // unless hashes collide, not by many
		}
		r.costHash(opNames[op], n, func() { out, ok = r.s.Apply(op, k, v, ret) })
		return
	}
	r.Phase = func(string) {
		measure()
		for i := 0; i < 300; i++ {
			r.do(opTest, r.pick(), nil, true)
			if k := r.absent(); k != nil {
				r.do(opTest, k, nil, true)
			}
		}
		r.costHash("Stats", 0, func() { r.s.Shape() })
		r.sessionCost()
		// a whole scan touches what there is, once or twice
		n, sum := 0, 0
		var cur Cursor
		for {
			step()
			ok := false
			spaces, pages := r.touching(func() { _, _, ok = r.s.Scan(&cur) })
			sum += spaces + pages
			c.Max("Scan.spaces", int64(spaces+pages))
			if !ok {
				break
			}
			n++
		}
		if sh := r.s.Shape(); n != r.m.Len() {
			c.Failf("scan", "%s: the scan returned %d of %d items", r.s.Kind, n, r.m.Len())
		} else if sum > 8*(sh.Count+sh.Slots)+64 {
			c.Failf("cost", "%s: a scan of %d slots and %d items touched spaces %d times", r.s.Kind, sh.Slots, sh.Count, sum)
		}
		c.Count("scans", 1)
	}
	p.play(r)
	r.mustClose()
	sanReport(c)
	c.sample = fmt.Sprintf("%d operations, max %v", c.counters["cost.checked"], c.max)
	if c.max["slots"] >= 16 && c.counters["cost.checked"] > 1000 {
		c.Nontrivial()
	}
}

// heapMax is by how much what is kept in memory may grow while a store is in
// use. The storage itself keeps some 100 kB of lists of free space.
const heapMax = 2 << 20

func heapInUse() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// memoryCase uses a store for long, with next to nothing kept by the harness,
// and looks at what the process keeps in memory.
func memoryCase(kind string, long bool, n int) func(c *Ctx) {
	return func(c *Ctx) {
		s := &Store{Kind: kind, Path: c.Path("store")}
		open := func(create bool) {
			if err := s.Open(create); err != nil {
				c.Failf("open", "opening %s failed: %v", kind, err)
			}
		}
		seed := c.Rng.U64() | 1
		var kb [300]byte
		key := func(i int) []byte {
			k := kb[:16]
			if long {
				k = kb[:260+i%40]
				kb = [300]byte{}
			}
			x := (uint64(i) + 1) * seed
			binary.BigEndian.PutUint64(k, x*0x9E3779B97F4A7C15)
			binary.BigEndian.PutUint64(k[len(k)-8:], x)
			return k
		}
		value := make([]byte, 300)
		base := int64(0)
		look := func(what string) {
			grown := heapInUse() - base
			c.Max("heap.grown", grown)
			c.Count("heap.looks", 1)
			if grown > heapMax {
				c.Failf("memory", "%s: %d bytes more than at the start are kept in memory after %s, with %d keys there", kind, grown, what, s.Shape().Count)
			}
		}
		each := func(what string, f func(i int)) {
			for i := 0; i < n; i++ {
				step()
				f(i)
			}
			c.Count("heap.ops", int64(n))
			look(what)
		}
		must := func(what string, i int, ok bool) {
			if !ok {
				c.Failf("lost", "%s: key %d: %s", kind, i, what)
			}
		}
		open(true)
		for i := 0; i < 1000; i++ { // what there is but once has come to be
			s.Apply(opSet, key(i), value, true)
			s.Apply(opTest, key(i), nil, true)
			s.Apply(opClear, key(i), nil, true)
		}
		base = heapInUse()
		each("setting", func(i int) {
			_, ok := s.Apply(opSetIfNotExists, key(i), value[:i%300], false)
			must("is there before it was set", i, ok == 1)
		})
		each("testing", func(i int) {
			v, ok := s.Apply(opTest, key(i), nil, true)
			must("isn't there", i, ok == 1 && len(v) == i%300)
		})
		each("testing of what isn't there", func(i int) {
			_, ok := s.Apply(opTest, key(n+i), nil, true)
			must("is there and was never set", n+i, ok == 0)
		})
		each("replacing", func(i int) {
			v, ok := s.Apply(opSetIfExists, key(i), value[:i%299], true)
			must("cannot be replaced", i, ok == 1 && len(v) == i%300)
		})
		each("setting one over and over", func(i int) { s.Apply(opSet, key(7), value[:i%300], i&1 == 0) })
		for j := 0; j < 3; j++ {
			found := 0
			if s.Ordered() {
				for it := s.Range(j&1 == 0, bptree.MinKey, bptree.MaxKey); !it.IsAtEnd(); it.Advance() {
					step()
					it.ReadRecordAll()
					found++
				}
			} else {
				var cur Cursor
				for ok := true; ok; found++ {
					step()
					_, _, ok = s.Scan(&cur)
				}
				found--
			}
			must(fmt.Sprintf("%d of %d are found", found, n), -1, found == n)
			look("reading it all")
		}
		if s.Ordered() {
			each("ranges", func(i int) { s.Range(i&1 == 0, key(i), bptree.MaxKey).ReadValueAll() })
		}
		for j := 0; j < 200; j++ {
			step()
			if err := s.Close(); err != nil {
				c.Failf("close", "closing %s failed: %v", kind, err)
			}
			open(j&1 == 0)
			s.Shape()
		}
		look("200 sessions")
		each("clearing", func(i int) {
			_, ok := s.Apply(opClear, key(i), nil, i&1 == 0)
			must("cannot be cleared", i, ok == 1)
		})
		each("setting and clearing", func(i int) {
			s.Apply(opSet, key(i), value[:i%300], false)
			s.Apply(opClear, key(i), nil, true)
		})
		if err := s.Close(); err != nil {
			c.Failf("close", "closing %s failed: %v", kind, err)
		}
		look("closing")
		c.Observe(seed)
		c.sample = fmt.Sprintf("%d operations, at most %d bytes more kept", c.counters["heap.ops"], c.max["heap.grown"])
		c.Nontrivial()
	}
}

func init() {
	register("C20", Property{
		Rule:    "A case is a history on the sanitizing storage, which tells the distinct spaces and pages that each operation touches: of a tree they are bounded in terms of its height, of a hash map in terms of the items that share a slot (no keys are made to collide here), whatever the number of keys; so are starting and advancing iterations and scans, opening and closing. On the real storage, what is left on the heap after hundreds of thousands of operations of each sort is bounded. Results are compared with a reference map as well. Non-trivial: 1000 operations measured and a height of 2 or 16 slots. Distinct: by a hash of the contents and shapes.",
		MustSee: []string{"cost.checked", "cost.sessions", "heap.ops", "ranges", "scans", "leaf.splits", "leaf.merges", "nonleaf.adds", "nonleaf.removes", "slot.splits", "slot.merges", "dir.adds", "dir.removes"},
		Cases: func(tier string, rng *Rng) []Case {
			var cs []Case
			var ps []Plan
			for _, p := range orderedPlans("bpt", false) {
				if p.Cost < 6 || thorough(tier) {
					ps = append(ps, p)
				}
			}
			ps = append(ps, huntPlans(rng, pickN(tier, 6, 60))...)
			ps = append(ps, tallPlans(pickN(tier, 1, 6), false, "bpt")...)
			ps = append(ps, randomPlans(rng, pickN(tier, 60, 600), 6000, "od", "bpt")...)
			cs = append(cs, planCases("san", ps, treeCost)...)
			ps = nil
			for _, p := range hashPlans("hm", false) {
				if p.Keys != "collide" && p.Keys != "skew" && (p.Cost < 6 || thorough(tier)) {
					ps = append(ps, p)
				}
			}
			for _, p := range randomPlans(rng, pickN(tier, 80, 800), 6000, "dict", "hm") {
				if p.Keys != "collide" && p.Keys != "skew" {
					ps = append(ps, p)
				}
			}
			for _, kind := range []string{"od", "dict", "bpt", "hm"} {
				for _, long := range []bool{false, true} {
					n := pickN(tier, 60000, 600000)
					cs = append(cs, Case{Name: fmt.Sprintf("real memory %s long=%v", kind, long), Variant: "real", Cost: 3, Run: memoryCase(kind, long, n)})
				}
			}
			return append(cs, planCases("san", ps, hashCost)...)
		},
	})
}
