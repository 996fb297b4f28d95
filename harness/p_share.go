package main

import (
	"encoding/binary"
	"fmt"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
)

// C18: structures that share a file storage, with each other and with others,
// leave each other alone.

// foreign is a space of someone else's.
type foreign struct {
	addr    int64
	aligned bool
	size    int
	seed    uint64
}

type shared struct {
	c       *Ctx
	rng     *Rng
	fs      *fsm.FileStorage
	path    string
	members []*Runner
	spaces  []foreign
	serial  uint64
	primary int64
	pads    []int64 // large spaces that nothing is written to
}

func (f foreign) bytes(fs *fsm.FileStorage) []byte {
	if f.aligned {
		return fs.AccessAlignedSpace(f.addr)
	}
	return fs.AccessSpace(f.addr)
}

func (sh *shared) allocate(size int, aligned bool) {
	sh.serial++
	f := foreign{aligned: aligned, size: size, seed: sh.serial}
	var b []byte
	if aligned {
		f.addr, b = sh.fs.AllocateAlignedSpace(size)
	} else {
		f.addr, b = sh.fs.AllocateSpace(size)
	}
	f.size = len(b) // all of it is ours
	NewRng(f.seed).Fill(b)
	sh.spaces = append(sh.spaces, f)
	sh.c.Count("foreign.allocated", 1)
}

// pad takes or gives back a large space, so that what comes to the storage
// afterwards lies far away, or may come back.
func (sh *shared) pad(take bool, n uint) {
	if take {
		addr, _ := sh.fs.AllocateAlignedSpace(1 << n)
		sh.pads = append(sh.pads, addr)
		sh.c.Count("pads.taken", 1)
	} else if len(sh.pads) > 0 {
		i := sh.rng.Intn(len(sh.pads))
		sh.fs.FreeAlignedSpace(sh.pads[i])
		sh.pads = append(sh.pads[:i], sh.pads[i+1:]...)
		sh.c.Count("pads.freed", 1)
	}
}

func (sh *shared) look(f foreign) {
	b := f.bytes(sh.fs)
	want := NewRng(f.seed).Bytes(f.size)
	if string(b) != string(want) {
		sh.c.Failf("foreign", "a space of %d bytes allocated beside the structures has changed: %s", f.size, diffAt(b, string(want)))
	}
	sh.c.Count("foreign.compared", 1)
}

// setPrimary makes one of the spaces the primary space, or none; the structures
// have nothing to do with it.
func (sh *shared) setPrimary() {
	addr := int64(-1)
	if len(sh.spaces) > 0 && sh.rng.Chance(2, 3) {
		addr = sh.spaces[sh.rng.Intn(len(sh.spaces))].addr
	}
	sh.fs.SetPrimarySpace(addr)
	sh.primary = sh.fs.PrimarySpace()
}

func (sh *shared) lookPrimary() {
	if p := sh.fs.PrimarySpace(); p != sh.primary {
		sh.c.Failf("primary", "the primary space of a storage shared has become %d, it was %d", p, sh.primary)
	}
	sh.c.Count("primary.compared", 1)
}

func (sh *shared) lookAll() {
	sh.lookPrimary()
	for _, f := range sh.spaces {
		sh.look(f)
	}
}

func (sh *shared) release(i int) {
	f := sh.spaces[i]
	sh.look(f)
	if f.aligned {
		sh.fs.FreeAlignedSpace(f.addr)
	} else {
		sh.fs.FreeSpace(f.addr)
	}
	n := len(sh.spaces) - 1
	sh.spaces[i] = sh.spaces[n]
	sh.spaces = sh.spaces[:n]
	sh.c.Count("foreign.freed", 1)
}

func (sh *shared) foreignSize() (int, bool) {
	if sh.rng.Chance(1, 4) {
		return sh.rng.Pick(4096, 8192, 8192, 8192, 16384, 32768), true
	}
	return sh.rng.Pick(1, 8, 17, 24, 32, 57, 64, 100, 129, 257, 500, 2000, 5000, 30000), false
}

func (sh *shared) join(kind, keys, vals string, pool int) *Runner {
	r := &Runner{c: sh.c, s: &Store{Kind: kind, Path: sh.path, fs: sh.fs, open: true}, m: NewModel(), val: vals, rng: NewRng(sh.rng.U64())}
	r.pool = keyPool(keys, pool, r.rng)
	if kind == "bpt" {
		r.s.bt = new(bptree.BPTree).Init(sh.fs)
	} else {
		r.s.hm = new(hashmap.HashMap).Init(sh.fs)
	}
	r.create()
	r.noVerify = true
	sh.members = append(sh.members, r)
	return r
}

func (r *Runner) storeAddr() int64 {
	if r.s.Kind == "bpt" {
		return r.s.bt.Store()
	}
	return r.s.hm.Store()
}

// loadAddr loads into an object of its own.
func (r *Runner) loadAddr(fs *fsm.FileStorage, addr int64) {
	r.s.fs = fs
	if r.s.Kind == "bpt" {
		r.s.bt = new(bptree.BPTree).Init(fs)
		r.s.bt.Load(addr)
	} else {
		r.s.hm = new(hashmap.HashMap).Init(fs)
		r.s.hm.Load(addr)
	}
	if sh := r.s.Shape(); sh != r.shape {
		r.c.Failf("shape", "%s: loaded, it tells %v, stored it told %v", r.s.Kind, sh, r.shape)
	}
}

// session closes the storage with everything in it and opens it again.
func (sh *shared) session() {
	dir := make([]byte, 8*len(sh.members))
	for i, r := range sh.members {
		binary.BigEndian.PutUint64(dir[8*i:], uint64(r.storeAddr()))
	}
	sh.lookPrimary()
	addr, b := sh.fs.AllocateSpace(len(dir) + 1)
	copy(b, dir)
	sh.fs.SetPrimarySpace(addr)
	if err := sh.fs.Close(); err != nil {
		panic(inconclusive(err.Error()))
	}
	sh.fs = new(fsm.FileStorage).Init()
	if err := sh.fs.Open(sh.path, false); err != nil {
		panic(inconclusive(err.Error()))
	}
	addr = sh.fs.PrimarySpace()
	copy(dir, sh.fs.AccessSpace(addr))
	sh.fs.FreeSpace(addr)
	sh.setPrimary()
	order := sh.rng.Intn(len(sh.members) + 1)
	for i := range sh.members {
		j := (i + order) % len(sh.members)
		sh.members[j].loadAddr(sh.fs, int64(binary.BigEndian.Uint64(dir[8*j:])))
	}
	sh.lookAll()
	sh.c.Count("sessions", 1)
}

var busyPhases = []string{"grow", "churn", "mixed", "resize", "empty", "max", "shrink", "shrinkasc", "shrinkdesc", "thin", "flap", "edge", "shrinkmid"}

func (sh *shared) others(r *Runner) {
	for _, o := range sh.members {
		if o != r && (len(sh.members) < 4 || sh.rng.Chance(1, 3)) {
			o.verify(sh.rng.Chance(1, 4))
		}
	}
}

// alongside iterates over one structure, or scans it, while the others and the
// spaces of others come and go.
func (sh *shared) alongside(r *Runner, n int) {
	var walks []*walk
	scan := newScanner("scan alongside others")
	if r.s.Ordered() {
		for i := 0; i < 4; i++ {
			walks = append(walks, r.newWalk(i&1 == 0))
		}
	}
	for i := 0; i < n; i++ {
		o := sh.members[sh.rng.Intn(len(sh.members))]
		switch x := sh.rng.Intn(4); {
		case x < 2 && o != r:
			op := sh.rng.Intn(numOps)
			k := o.pick()
			o.do(op, k, o.valueFor(op, k), o.ret())
		case x == 2 && len(sh.spaces) > 0:
			sh.release(sh.rng.Intn(len(sh.spaces)))
		default:
			size, aligned := sh.foreignSize()
			sh.allocate(size, aligned)
		}
		if r.s.Ordered() {
			j := sh.rng.Intn(len(walks))
			if !r.walkStep(walks[j]) && sh.rng.Chance(1, 20) {
				walks[j] = r.newWalk(sh.rng.Chance(1, 2))
			}
		} else if !scan.done {
			r.scanStep(scan, r.checkItem(scan))
		}
	}
	r.checkHeld(scan)
	for _, x := range walks {
		r.walkStep(x)
	}
	sh.c.Count("alongside", 1)
}

func (sh *shared) round(n int) {
	c := sh.c
	r := sh.members[sh.rng.Intn(len(sh.members))]
	switch x := sh.rng.Intn(22); {
	case x >= 20:
		sh.alongside(r, n/2)
	case x < 10:
		name := busyPhases[sh.rng.Intn(len(busyPhases))]
		if r.m.Len() < 5 {
			name = "grow"
		}
		r.phase(name, sh.rng.Range(1, n))
		r.verify(false)
	case x < 12: // by turns, operation by operation
		for i := 0; i < n; i++ {
			m := sh.members[sh.rng.Intn(len(sh.members))]
			op := sh.rng.Intn(numOps)
			k := m.pick()
			m.do(op, k, m.valueFor(op, k), m.ret())
			if sh.rng.Chance(1, 10) {
				size, aligned := sh.foreignSize()
				sh.allocate(size, aligned)
			} else if len(sh.spaces) > 0 && sh.rng.Chance(1, 10) {
				sh.release(sh.rng.Intn(len(sh.spaces)))
			}
		}
	case x < 14:
		for i := sh.rng.Range(1, 20); i > 0; i-- {
			size, aligned := sh.foreignSize()
			sh.allocate(size, aligned)
		}
	case x < 16:
		for i := sh.rng.Range(1, 20); i > 0 && len(sh.spaces) > 0; i-- {
			sh.release(sh.rng.Intn(len(sh.spaces)))
		}
	case x < 17:
		r.loadAddr(sh.fs, r.storeAddr())
		r.verify(true)
		c.Count("stored.loaded", 1)
	case x < 18:
		if r.s.Kind == "bpt" {
			r.s.bt.Destroy()
		} else {
			r.s.hm.Destroy()
		}
		c.Count("destroys", 1)
		r.m = NewModel()
		if sh.rng.Chance(1, 2) { // into an object of its own
			if r.s.Kind == "bpt" {
				r.s.bt = new(bptree.BPTree).Init(sh.fs)
			} else {
				r.s.hm = new(hashmap.HashMap).Init(sh.fs)
			}
		}
		r.create()
	case x < 19:
		sh.session()
		for _, m := range sh.members {
			m.verify(false)
		}
	default:
		// a structure that comes and goes, with the others all around
		kind := []string{"bpt", "hm"}[sh.rng.Intn(2)]
		t := sh.join(kind, "bound", "bound", 200)
		t.phase("grow", sh.rng.Range(1, n))
		sh.others(t)
		t.verify(true)
		if kind == "bpt" {
			t.s.bt.Destroy()
		} else {
			t.s.hm.Destroy()
		}
		c.Count("destroys", 1)
		sh.members = sh.members[:len(sh.members)-1]
	}
	sh.others(r)
	sh.lookPrimary()
	if sh.rng.Chance(1, 4) {
		sh.setPrimary()
	}
	if len(sh.spaces) > 0 {
		sh.look(sh.spaces[sh.rng.Intn(len(sh.spaces))])
	}
}

func shareCase(kinds []string, rounds, n int, far bool) func(c *Ctx) {
	return func(c *Ctx) {
		sh := &shared{c: c, rng: NewRng(c.Rng.U64()), path: c.Path("shared"), fs: new(fsm.FileStorage).Init()}
		if err := sh.fs.Open(sh.path, true); err != nil {
			panic(inconclusive(err.Error()))
		}
		sh.primary = sh.fs.PrimarySpace()
		fresh := sh.fs.Stats().AllocatedSpaceSize
		if far {
			limitFiles(farFileMax)
			for _, n := range farBegins[sh.rng.Intn(len(farBegins))] {
				sh.pad(true, uint(n))
			}
		}
		for i, k := range kinds {
			for j := sh.rng.Intn(40); j > 0 && i > 0; j-- {
				size, aligned := sh.foreignSize()
				sh.allocate(size, aligned)
			}
			keys := keyClasses[sh.rng.Intn(len(keyClasses))]
			vals := []string{"mixed", "bound", "page", "max128", "small"}[sh.rng.Intn(5)]
			pool := sh.rng.Pick(60, 400, 1500)
			if n > 1000 {
				pool = sh.rng.Pick(400, 5000, 9000)
			}
			if keys == "huge" {
				pool = 12
			}
			r := sh.join(k, keys, vals, pool)
			r.dist = sh.rng.Intn(3)
		}
		for i := 0; i < rounds; i++ {
			sh.round(n)
			if far && sh.rng.Chance(1, 5) {
				sh.pad(len(sh.pads) < 4 || len(sh.pads) < 10 && sh.rng.Chance(1, 2), uint(sh.rng.Range(28, 32)))
			}
		}
		sh.lookAll()
		for _, r := range sh.members {
			r.verify(true)
			c.Observe(uint64(r.m.Len())<<32 ^ uint64(r.m.payload))
		}
		sh.session()
		for _, r := range sh.members {
			r.verify(true)
		}
		// all leave
		for i, r := range sh.members {
			if r.s.Kind == "bpt" {
				r.s.bt.Destroy()
			} else {
				r.s.hm.Destroy()
			}
			c.Count("destroys", 1)
			for _, o := range sh.members[i+1:] {
				o.verify(false)
			}
			sh.lookAll()
		}
		for len(sh.pads) > 0 {
			sh.pad(false, 0)
		}
		for len(sh.spaces) > 0 {
			sh.release(len(sh.spaces) - 1)
		}
		if n := sh.fs.Stats().AllocatedSpaceSize; n > fresh {
			c.Failf("not-reclaimed", "%d bytes are allocated when all have left, %d were when none had come", n, fresh)
		}
		if err := sh.fs.Close(); err != nil {
			panic(inconclusive(err.Error()))
		}
		sanReport(c)
		c.sample = fmt.Sprintf("%d structures, %d rounds, %d ops, %d spaces beside them compared %d times, %d sessions, %d destroyed", len(kinds), rounds, c.counters["ops"],
			c.counters["foreign.allocated"], c.counters["foreign.compared"], c.counters["sessions"], c.counters["destroys"])
		if c.counters["foreign.compared"] > 20 && c.counters["destroys"] > len64(kinds) {
			c.Nontrivial()
		}
	}
}

func len64(s []string) int64 { return int64(len(s)) }

// layoutCase creates a structure after so many spaces, wherever it gets.
func layoutCase(kind string, size int, aligned bool, from, to int) func(c *Ctx) {
	return func(c *Ctx) {
		for n := from; n < to; n++ {
			sh := &shared{c: c, rng: NewRng(c.Rng.U64()), path: c.Path(fmt.Sprintf("layout%d", n)), fs: new(fsm.FileStorage).Init()}
			if err := sh.fs.Open(sh.path, true); err != nil {
				panic(inconclusive(err.Error()))
			}
			sh.primary = sh.fs.PrimarySpace()
			for i := 0; i < n; i++ {
				sh.allocate(size, aligned)
			}
			r := sh.join(kind, "bound", "bound", 150)
			r.phase("churn", 60)
			r.verify(true)
			sh.lookAll()
			sh.session()
			r.verify(true)
			r.phase("grow", 200)
			r.phase("drain", 0)
			r.verify(true)
			for len(sh.spaces) > n/2 {
				sh.release(sh.rng.Intn(len(sh.spaces)))
			}
			r.phase("grow", 100)
			r.verify(true)
			sh.lookAll()
			if err := sh.fs.Close(); err != nil {
				panic(inconclusive(err.Error()))
			}
			removeFile(sh.path)
			c.Count("layouts", 1)
		}
		c.Observe(uint64(from)<<32 ^ uint64(size))
		c.sample = fmt.Sprintf("%d layouts, %d spaces compared", c.counters["layouts"], c.counters["foreign.compared"])
		sanReport(c)
		c.Nontrivial()
	}
}

// zeroCase has leafs and then other pages lie at the very beginning of the
// storage, and go again. The first page of a tree alone in its storage lies
// there, but it is the leftmost one and stays that; so others hold the place
// first and give it up while a page is about to be made.
func zeroCase(leafs bool) func(c *Ctx) {
	return func(c *Ctx) {
		for i := 0; i < 6; i++ {
			sh := &shared{c: c, rng: NewRng(c.Rng.U64()), path: c.Path(fmt.Sprintf("zero%d", i)), fs: new(fsm.FileStorage).Init()}
			if err := sh.fs.Open(sh.path, true); err != nil {
				panic(inconclusive(err.Error()))
			}
			sh.primary = sh.fs.PrimarySpace()
			sh.allocate(pageSize, true)
			if sh.spaces[0].addr != 0 {
				panic(inconclusive("the first page isn't at 0"))
			}
			r := sh.join("bpt", "ext", "small", sh.rng.Range(5000, 9000))
			r.phase("fillasc", 1<<30)
			h := &hunter{r: r}
			h.peek()
			// where the first page is used: by a page that isn't the leftmost one
			zero := func() *hnode {
				h.peek()
				for _, x := range append(append([]*hnode{}, h.leafs...), h.nodes...) {
					if x.addr == 0 && x.parent != nil {
						return x
					}
				}
				return nil
			}
			var got *hnode
			if leafs {
				sh.release(0)
				for n := 0; n < 3000 && got == nil; n++ {
					if k := r.absent(); k != nil {
						r.do(opSet, k, r.newValue(k), false)
					}
					if n%50 == 49 {
						got = zero()
					}
				}
			} else {
				// removing the first record of a leaf whose next key is longer makes the
				// page above larger, which may split; leafs are not made meanwhile
				for n := 4 * len(h.leafs); n > 0; n-- {
					j := sh.rng.Range(1, len(h.leafs)-1)
					l := h.leafs[j]
					p := 0
					for p+1 < len(l.keys) && len(l.keys[p]) >= len(l.keys[p+1]) {
						p++
					}
					if p+2 >= len(l.keys) {
						continue
					}
					sh.release(0)
					for ; p >= 0; p-- {
						r.do(opClear, []byte(l.keys[0]), nil, false)
						l.keys = l.keys[1:]
					}
					sh.allocate(pageSize, true)
					if sh.spaces[0].addr != 0 {
						got = zero()
						break
					}
				}
			}
			if got != nil {
				if got.kids == nil {
					c.Count("zero.leafs", 1)
				} else {
					c.Count("zero.nonleafs", 1)
				}
				if got.idx == 1 {
					c.Count("zero.second", 1)
				}
			}
			r.verify(true)
			sh.lookAll()
			switch i % 3 {
			case 0:
				r.phase("drainasc", 1<<30)
			case 1:
				r.phase("churn", 3000)
				r.phase("drainasc", 1<<30)
			default:
				r.phase("thin", 4000)
				r.phase("shrinkasc", 2000)
				r.phase("draindesc", 1<<30)
			}
			r.verify(true)
			sh.lookAll()
			r.phase("grow", 500)
			r.verify(true)
			sh.session()
			r.verify(true)
			if err := sh.fs.Close(); err != nil {
				panic(inconclusive(err.Error()))
			}
			removeFile(sh.path)
			c.Observe(uint64(c.counters["ops"]))
		}
		c.sample = fmt.Sprintf("%d leafs and %d other pages at the beginning", c.counters["zero.leafs"], c.counters["zero.nonleafs"])
		sanReport(c)
		c.Nontrivial()
	}
}

// crowdCase has many structures in a storage.
func crowdCase(n int) func(c *Ctx) {
	return func(c *Ctx) {
		sh := &shared{c: c, rng: NewRng(c.Rng.U64()), path: c.Path("crowd"), fs: new(fsm.FileStorage).Init()}
		if err := sh.fs.Open(sh.path, true); err != nil {
			panic(inconclusive(err.Error()))
		}
		sh.primary = sh.fs.PrimarySpace()
		for i := 0; i < n; i++ {
			r := sh.join([]string{"bpt", "hm"}[sh.rng.Intn(2)], "rand8", "bound", 40)
			r.noVerify = true
			if sh.rng.Chance(1, 10) {
				sh.allocate(sh.foreignSize())
			}
		}
		lockstep(sh.members)
		for round := 0; round < 3; round++ {
			for i := 0; i < 2*n; i++ {
				r := sh.members[sh.rng.Intn(n)]
				r.phase([]string{"mixed", "grow", "shrink"}[sh.rng.Intn(3)], sh.rng.Range(1, 8))
				if r.verify(sh.rng.Chance(1, 2)); sh.rng.Chance(1, 4) {
					sh.members[sh.rng.Intn(n)].verify(false)
				}
			}
			for _, r := range sh.members {
				r.verify(true)
			}
			sh.session()
		}
		for _, r := range sh.members {
			r.verify(true)
			c.Count("crowd", 1)
		}
		sh.lookAll()
		if err := sh.fs.Close(); err != nil {
			panic(inconclusive(err.Error()))
		}
		c.sample = fmt.Sprintf("%d structures in a storage", n)
		c.Nontrivial()
	}
}

func init() {
	register("C18", Property{
		Rule:    "A case puts several trees and hash maps and spaces of others, full of known bytes, into one file storage, the real or the sanitizing one, and works on them by turns: operations, storing and loading, destroying and creating, closing and opening, structures that come and go; contents are compared with a reference map each, the spaces of others byte by byte, and the primary space of the storage. Other cases create a structure after each number of allocations, so that it meets the growth of the file at every point, or have pages come to lie at the very beginning of the storage, or have hundreds of structures in one. Non-trivial: 20 comparisons of spaces of others and more destroyed than there are structures, or a series of layouts. Distinct: by a hash of the contents.",
		MustSee: []string{"foreign.compared", "foreign.freed", "stored.loaded", "sessions", "destroys", "layouts", "leaf.splits", "leaf.merges", "slot.splits", "slot.merges", "san.remaps", "primary.compared", "pads.taken", "pads.freed", "zero.leafs", "zero.nonleafs", "alongside", "crowd"},
		Cases: func(tier string, rng *Rng) []Case {
			var cs []Case
			for i, n := 0, pickN(tier, 90, 900); i < n; i++ {
				var kinds []string
				for j := rng.Range(2, 5); j > 0; j-- {
					kinds = append(kinds, []string{"bpt", "hm"}[rng.Intn(2)])
				}
				v := []string{"real", "san"}[i&1]
				rounds, ops := 120, 300
				if i%7 == 0 {
					rounds, ops = 30, 5000
				}
				cs = append(cs, Case{Name: fmt.Sprintf("%s/share#%d:%v", v, i, kinds), Variant: v, Cost: ops / 1000, Run: shareCase(kinds, rounds, ops, v == "real" && i%4 == 0)})
			}
			for _, k := range []string{"bpt", "hm"} {
				for from := 0; from < pickN(tier, 144, 600); from += 16 {
					cs = append(cs, Case{Name: fmt.Sprintf("real/layout/%s/30000/%d", k, from), Variant: "real", Run: layoutCase(k, 30000, false, from, from+16)})
					cs = append(cs, Case{Name: fmt.Sprintf("real/layout/%s/aligned/%d", k, from), Variant: "real", Run: layoutCase(k, 8192, true, from, from+16)})
				}
				cs = append(cs, Case{Name: fmt.Sprintf("san/layout/%s", k), Variant: "san", Run: layoutCase(k, 30000, false, 0, 20)})
			}
			for i, n := 0, pickN(tier, 6, 60); i < n; i++ {
				v := []string{"real", "san"}[i&1]
				cs = append(cs, Case{Name: fmt.Sprintf("%s/zero/%d", v, i), Variant: v, Cost: 2, Run: zeroCase(i%3 == 0)})
			}
			for i, n := 0, pickN(tier, 2, 10); i < n; i++ {
				cs = append(cs, Case{Name: fmt.Sprintf("real/crowd/%d", i), Variant: "real", Cost: 3, Run: crowdCase(300 + 400*(i&1))})
			}
			return cs
		},
	})
}
