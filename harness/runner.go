package main

import (
	"bytes"
	"fmt"

	"github.com/roy2220/plainkv/bptree"
)

// Runner drives a store through phases of operations and keeps the reference
// model in step; every result is compared as it is returned.
type Runner struct {
	c     *Ctx
	s     *Store
	m     *Model
	pool  [][]byte
	val   string // value class
	rng   *Rng
	id    uint64
	dist  int // how keys are picked
	shape Shape

	noVerify bool   // no full comparison at the end of phases
	hunted   func() // looks at what a hunt has set off

	shared [][]byte // keys that others pass at the same time
	recent []string // the keys of the last operations
	nth    int

	accesses int // of spaces, by the operation measured last

	// apply, if not nil, performs the operations.
	apply func(op int, k, v []byte, ret bool) ([]byte, int)

	// Monitors.
	Before func(op int, k, v []byte, ret bool)
	After  func(op int, k []byte, existed bool)
	Phase  func(name string)
}

// newRunner makes a runner on a fresh store.
func newRunner(c *Ctx, kind, keyClass, valClass string, poolSize int) *Runner {
	r := closedRunner(c, kind, keyClass, valClass, poolSize)
	r.mustOpen(true)
	return r
}

// closedRunner makes a runner without opening the store.
func closedRunner(c *Ctx, kind, keyClass, valClass string, poolSize int) *Runner {
	r := &Runner{c: c, s: &Store{Kind: kind, Path: c.Path("store")}, m: NewModel(), val: valClass,
		rng: NewRng(c.Rng.U64())}
	r.pool = keyPool(keyClass, poolSize, r.rng)
	return r
}

func (r *Runner) mustOpen(create bool) {
	if err := r.s.Open(create); err != nil {
		r.c.Failf("open", "opening %s failed: %v", r.s.Kind, err)
	}
	r.shape = r.s.Shape()
}

func (r *Runner) mustClose() {
	if err := r.s.Close(); err != nil {
		r.c.Failf("close", "closing %s failed: %v", r.s.Kind, err)
	}
}

func (r *Runner) reopen() {
	r.mustClose()
	r.mustOpen(false)
	r.c.Count("reopens", 1)
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func eqBytes(a []byte, b string) bool { return string(a) == b }

// diffAt tells where two byte strings differ.
func diffAt(a []byte, b string) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("got %s, want %s (lengths %d and %d, differ at %d)", short(a), short([]byte(b)), len(a), len(b), i)
}

// do performs an operation, and at times looks at the key before and after.
func (r *Runner) do(op int, k, v []byte, ret bool) {
	look := op != opTest && r.rng.Chance(1, 24)
	if look {
		r.once(opTest, k, nil, true)
	}
	r.once(op, k, v, ret)
	if look {
		r.once(opTest, k, nil, true)
		r.c.Count("ops.looked-at", 1)
	}
}

// burst is some operations right after one another on one of the keys of the
// last operations: what a shortcut may remember something of.
func (r *Runner) burst() {
	if len(r.recent) < recents || !r.rng.Chance(1, 12) {
		return
	}
	one := r.recent[r.rng.Intn(recents)]
	if r.rng.Chance(1, 4) {
		r.exchange([]byte(one))
		return
	}
	for n := r.rng.Range(2, 6); n > 0; n-- {
		k := []byte(one)
		if r.rng.Chance(1, 5) {
			k = []byte(r.recent[r.rng.Intn(recents)])
		}
		op := r.rng.Pick(opTest, opTest, opTest, opSet, opSetIfExists, opSetIfNotExists, opClear)
		r.do(op, k, r.valueFor(op, k), r.ret() || op == opTest)
	}
	r.c.Count("bursts", 1)
}

// exchange takes a key away and adds another, so that there are as many items
// and bytes as before: what is remembered may be told fresh by those.
func (r *Runner) exchange(a []byte) {
	va, there := r.m.Get(string(a))
	b := r.absent()
	if !there {
		// the other way round
		b = a
		if a, there = r.pickLive(); there {
			va, _ = r.m.Get(string(a))
		}
	}
	n := len(a) + len(va) - len(b)
	if !there || b == nil || n < 0 || n > 1<<17 {
		return
	}
	vb := r.rng.Bytes(n)
	look := func() {
		r.once(opTest, a, nil, true)
		r.once(opTest, b, nil, true)
	}
	look()
	if r.rng.Chance(1, 2) {
		r.once(opClear, a, nil, r.ret())
		r.once(opSet, b, vb, r.ret())
	} else {
		r.once(opSetIfNotExists, b, vb, r.ret())
		r.once(opClear, a, nil, r.ret())
	}
	look()
	r.c.Count("exchanges", 1)
}

// settle brings the number of items and their bytes to what they were.
func (r *Runner) settle(count, payload int) {
	for try := 0; r.m.Len() < count && try < 3*count+10; try++ {
		if k := r.absent(); k != nil {
			r.do(opSetIfNotExists, k, r.valueFor(opSet, k), r.ret())
		}
	}
	for r.m.Len() > count {
		k, _ := r.pickLive()
		r.do(opClear, k, nil, r.ret())
	}
	for try := 0; r.m.payload != payload && r.m.Len() > 0 && try < 3*count+10; try++ {
		k, _ := r.pickLive()
		v, _ := r.m.Get(string(k))
		n := len(v) + payload - r.m.payload
		if most := 2000 + len(v); n > most && try < count {
			n = most
		}
		if n < 0 {
			n = 0
		}
		if n > 1<<24 {
			return
		}
		r.do(opSetIfExists, k, r.rng.Bytes(n), r.ret())
	}
	if r.m.Len() == count && r.m.payload == payload {
		r.c.Count("settled", 1)
	}
}

const recents = 4

// once performs an operation and compares its result with the model.
func (r *Runner) once(op int, k, v []byte, ret bool) {
	step()
	c := r.c
	c.Trace(fmt.Sprintf("%s(%s, %s, %v)", opNames[op], short(k), short(v), ret))
	ks := string(k)
	old, existed := r.m.Get(ks)
	if r.nth++; len(r.recent) < recents {
		r.recent = append(r.recent, ks)
	} else {
		r.recent[r.nth%recents] = ks
	}
	if r.Before != nil {
		r.Before(op, k, v, ret)
	}
	var out []byte
	var ok int
	if r.apply != nil {
		out, ok = r.apply(op, k, v, ret)
	} else {
		out, ok = r.s.Apply(op, k, v, ret)
	}
	var wantOK bool
	returns := false
	switch op {
	case opSet:
		wantOK = !existed
		returns = existed
		r.m.Put(ks, string(v))
	case opSetIfExists:
		wantOK = existed
		returns = existed
		if existed {
			r.m.Put(ks, string(v))
		}
	case opSetIfNotExists:
		wantOK = !existed
		returns = existed
		if !existed {
			r.m.Put(ks, string(v))
		}
	case opClear:
		wantOK = existed
		returns = existed
		if existed {
			r.m.Del(ks)
		}
	case opTest:
		wantOK = existed
		returns = existed
	}
	if ok >= 0 && (ok == 1) != wantOK {
		c.Failf("result", "%s %s(%s) returned %v, want %v (key present before: %v)", r.s.Kind, opNames[op], short(k), ok == 1, wantOK, existed)
	}
	want := ""
	if ret && returns {
		want = old
	}
	if !eqBytes(out, want) {
		c.Failf("value", "%s %s(%s, ret=%v) returned a wrong value: %s (key present before: %v)", r.s.Kind, opNames[op], short(k), ret, diffAt(out, want), existed)
	}
	c.Count("ops", 1)
	if existed {
		c.Count(opNames[op]+".present", 1)
	} else {
		c.Count(opNames[op]+".absent", 1)
	}
	if len(k) > 256 {
		c.Count("ops.long-key", 1)
	}
	if (op == opSet || op == opSetIfExists || op == opSetIfNotExists) && len(v) > 128 {
		c.Count("ops.long-value", 1)
	}
	r.noteShape()
	if r.After != nil {
		r.After(op, k, existed)
	}
}

// noteShape counts what happens to the structure.
func (r *Runner) noteShape() {
	n := r.s.Shape()
	o := r.shape
	c := r.c
	if n.Height > 0 {
		if n.Leafs > o.Leafs {
			c.Count("leaf.splits", 1)
		} else if n.Leafs < o.Leafs {
			c.Count("leaf.merges", 1)
		}
		if n.NonLeafs > o.NonLeafs {
			c.Count("nonleaf.adds", 1)
		} else if n.NonLeafs < o.NonLeafs {
			c.Count("nonleaf.removes", 1)
		}
		if n.Height > o.Height {
			c.Count("height.ups", 1)
		} else if n.Height < o.Height {
			c.Count("height.downs", 1)
		}
		c.Max("height", int64(n.Height))
		c.Max("leafs", int64(n.Leafs))
		c.Max("nonleafs", int64(n.NonLeafs))
	} else {
		if n.Slots > o.Slots {
			c.Count("slot.splits", 1)
		} else if n.Slots < o.Slots {
			c.Count("slot.merges", 1)
		}
		if n.Dirs > o.Dirs {
			c.Count("dir.adds", 1)
		} else if n.Dirs < o.Dirs {
			c.Count("dir.removes", 1)
		}
		c.Max("slots", int64(n.Slots))
		c.Max("dirs", int64(n.Dirs))
	}
	c.Max("items", int64(n.Count))
	r.shape = n
}

// newValue makes a value for a key: mostly one like no other, at times one
// that is to the key's present value, or to another value or key at hand, what
// a shortcut could take for the same.
func (r *Runner) newValue(k []byte) []byte {
	r.id++
	v := makeValue(r.id, valSize(r.val, r.rng))
	if r.rng.Chance(1, 4) {
		if w, ok := r.relatedValue(k, v); ok && len(w) <= valMax(r.val) {
			r.c.Count("values.related", 1)
			return w
		}
	}
	return v
}

// valMax is the largest value of a class.
func valMax(class string) int {
	switch class {
	case "empty":
		return 0
	case "small":
		return 16
	case "page", "max128":
		return 128
	}
	return 1 << 25
}

// relatedValue makes a variant of what the key holds, or held last.
func (r *Runner) relatedValue(k, fresh []byte) ([]byte, bool) {
	old, ok := r.m.Get(string(k))
	if !ok {
		old, ok = r.m.gone[string(k)]
	}
	if !ok || r.rng.Chance(1, 8) {
		switch r.rng.Intn(5) {
		case 0: // another key's
			l, ok := r.pickLive()
			if !ok {
				return nil, false
			}
			old = r.m.m[string(l)]
		case 1:
			old = string(k)
		case 2:
			return bytes.Repeat([]byte{byte(r.rng.Pick(0, 0, 0xff, 1))}, len(fresh)), true
		default:
			return nil, false
		}
	}
	v := []byte(old)
	n := len(v)
	at := func(i int) {
		if i >= 0 && i < n {
			v[i] ^= byte(1 << uint(r.rng.Intn(8)))
		}
	}
	switch r.rng.Intn(10) {
	case 0, 1, 2: // the same again
	case 3: // one byte differs, at one end, where values overflow, or anywhere
		at(r.rng.Pick(0, n-1, 119, 120, 121, 127, 128, 7, 8))
	case 4:
		at(r.rng.Intn(n + 1))
	case 5: // a prefix
		v = v[:r.rng.Pick(n/2, n-atMost(1, n), r.rng.Intn(n+1))]
	case 6: // an extension
		v = append(v, fresh[:r.rng.Intn(len(fresh)+1)]...)
	case 7: // the same length, the prefix kept in a page the same
		copy(v[atMost(r.rng.Pick(8, 120, 121, 122, n/2), n):], fresh)
	case 8: // the same length, the rest the same
		copy(v[:atMost(r.rng.Pick(1, 8, 120, 121), n)], fresh)
	case 9: // the same length
		copy(v, fresh)
	}
	return v, true
}

func atMost(i, n int) int {
	if i > n {
		return n
	}
	return i
}

// pick picks a key of the pool.
func (r *Runner) pick() []byte {
	n := len(r.pool)
	switch r.dist {
	case 1: // hot keys
		if r.rng.Chance(3, 4) {
			return r.pool[r.rng.Intn(n/16+1)]
		}
	case 2: // a window of neighbours
		w := n/8 + 1
		return r.pool[(int(r.id/64)+r.rng.Intn(w))%n]
	}
	return r.pool[r.rng.Intn(n)]
}

// pickLive picks a key the model holds.
func (r *Runner) pickLive() ([]byte, bool) {
	if r.m.Len() == 0 {
		return nil, false
	}
	return []byte(r.m.live[r.rng.Intn(len(r.m.live))]), true
}

func (r *Runner) ret() bool { return r.rng.Chance(1, 2) }

// phase runs about n operations of the named kind.
func (r *Runner) phase(name string, n int) {
	c := r.c
	c.Trace(fmt.Sprintf("-- %s %d (holding %d)", name, n, r.m.Len()))
	switch name {
	case "grow":
		for i := 0; i < n; i++ {
			switch x := r.rng.Intn(20); {
			case x < 9:
				r.set(opSet, r.pick())
			case x < 17:
				r.set(opSetIfNotExists, r.pick())
			case x < 18:
				r.set(opSetIfExists, r.pick())
			case x < 19:
				r.do(opTest, r.pick(), nil, r.ret())
			default:
				r.do(opClear, r.pick(), nil, r.ret())
			}
			r.burst()
		}
	case "fill": // every key, in the order of the pool
		for i := 0; i < n && i < len(r.pool); i++ {
			r.do(opSetIfNotExists-2*(i&1), r.pool[i], r.newValue(r.pool[i]), i&2 == 0)
		}
	case "fillasc", "filldesc":
		ks := &sortedKeys{}
		for i := 0; i < n && i < len(r.pool); i++ {
			ks.insert(string(r.pool[i]))
		}
		all := ks.all()
		for i := range all {
			k := all[i]
			if name == "filldesc" {
				k = all[len(all)-1-i]
			}
			r.do(opSetIfNotExists, []byte(k), r.newValue([]byte(k)), false)
		}
	case "fillinterleave": // from both ends inwards, then the rest
		ks := &sortedKeys{}
		for i := 0; i < n && i < len(r.pool); i++ {
			ks.insert(string(r.pool[i]))
		}
		all := ks.all()
		for stride := 16; stride >= 1; stride /= 2 {
			for i := 0; i < len(all); i += stride {
				if _, ok := r.m.Get(all[i]); !ok {
					r.do(opSet, []byte(all[i]), r.newValue([]byte(all[i])), true)
				}
			}
		}
	case "churn":
		for i := 0; i < n; i++ {
			op := r.rng.Intn(numOps)
			k := r.pick()
			r.do(op, k, r.valueFor(op, k), r.ret())
			r.burst()
		}
	case "mixed":
		// operations on keys that are there as often as on any
		for i := 0; i < n; i++ {
			op := r.rng.Intn(numOps)
			k := r.pick()
			if r.rng.Chance(1, 2) {
				if l, ok := r.pickLive(); ok {
					k = l
				}
			}
			r.do(op, k, r.valueFor(op, k), r.ret())
			r.burst()
		}
	case "resize": // values shrink and grow in place
		for i := 0; i < n; i++ {
			if k, ok := r.pickLive(); ok {
				op := opSet
				if i&1 == 1 {
					op = opSetIfExists
				}
				r.do(op, k, r.newValue(k), r.ret())
			}
		}
	case "empty", "max": // all values to the smallest or the largest kept in pages
		for i, k := range r.m.Sorted() {
			if i >= n {
				break
			}
			r.id++
			size := 0
			if name == "max" {
				size = 128
			}
			r.do(opSetIfExists, []byte(k), makeValue(r.id, size), i&1 == 0)
		}
	case "shrink": // delete keys at random
		for i := 0; i < n; i++ {
			if k, ok := r.pickLive(); ok {
				r.do(opClear, k, nil, r.ret())
			}
		}
	case "shrinkasc":
		for i := 0; i < n; i++ {
			if k, ok := r.m.keys.first(); ok {
				r.do(opClear, []byte(k), nil, r.ret())
			}
		}
	case "shrinkdesc":
		for i := 0; i < n; i++ {
			if k, ok := r.m.keys.last(); ok {
				r.do(opClear, []byte(k), nil, r.ret())
			}
		}
	case "shrinkmid": // delete a contiguous run
		if k, ok := r.pickLive(); ok {
			for _, k := range r.m.keys.from(string(k), n) {
				r.do(opClear, []byte(k), nil, r.ret())
			}
		}
	case "thin": // every other key in order
		for i, k := range r.m.Sorted() {
			if i >= 2*n {
				break
			}
			if i&1 == 0 {
				r.do(opClear, []byte(k), nil, r.ret())
			}
		}
	case "drain":
		for r.m.Len() > 0 {
			k, _ := r.pickLive()
			r.do(opClear, k, nil, r.ret())
		}
	case "drainasc", "draindesc":
		all := r.m.Sorted()
		for i := range all {
			k := all[i]
			if name == "draindesc" {
				k = all[len(all)-1-i]
			}
			r.do(opClear, []byte(k), nil, r.ret())
		}
	case "flap": // the same few keys come and go
		var hot [][]byte
		for i := 0; i < 8; i++ {
			hot = append(hot, r.pick())
		}
		for i := 0; i < n; i++ {
			k := hot[r.rng.Intn(len(hot))]
			if _, ok := r.m.Get(string(k)); ok {
				r.do(opClear, k, nil, r.ret())
			} else {
				r.do(opSetIfNotExists, k, r.newValue(k), r.ret())
			}
		}
	case "edge": // grow and shrink around the present size
		for i := 0; i < n; i++ {
			if (i/40)&1 == 0 {
				r.set(opSetIfNotExists, r.pick())
			} else if k, ok := r.pickLive(); ok {
				r.do(opClear, k, nil, r.ret())
			}
			r.burst()
		}
	case "gap": // a key is looked at again after exactly n changes
		for i, rounds := 0, 1+3000/n; i < rounds; i++ {
			r.gap(n, i)
		}
	case "noop":
		for i := 0; i < n; i++ {
			r.noop(i)
		}
	case "hunt", "press":
		if r.s.Kind == "bpt" {
			if r.hunted == nil {
				r.hunted = func() { r.verify(false) }
			}
			r.hunt(n, name == "press", r.hunted)
		}
	default:
		panic("phase " + name)
	}
	c.Observe(hashString(name))
	c.Observe(uint64(r.m.Len())<<32 ^ uint64(r.m.payload))
	c.Observe(hashString(r.s.Shape().String()))
	if !r.noVerify {
		r.verify(true)
	}
	if r.Phase != nil {
		r.Phase(name)
	}
	c.Count("phases", 1)
}

// gap looks at a key, makes n changes, the first one to that key, and looks at
// it again: what is remembered may tell its age by a number that starts anew.
func (r *Runner) gap(n, how int) {
	k := r.pick()
	ks := string(k)
	if _, ok := r.m.Get(ks); !ok {
		r.once(opSet, k, r.newValue(k), false)
	}
	r.once(opTest, k, nil, true)
	if how&1 == 0 {
		r.once(opSet, k, r.newValue(k), false)
	} else {
		r.once(opClear, k, nil, false)
	}
	for n--; n > 0; {
		o := r.pick()
		if string(o) == ks && len(r.pool) > 1 {
			continue
		}
		if _, ok := r.m.Get(string(o)); !ok {
			r.once(opSetIfNotExists, o, r.newValue(o), false)
		} else if how&3 == 0 {
			r.once(opSetIfExists, o, r.newValue(o), false)
		} else {
			r.once(opClear, o, nil, false)
		}
		n--
	}
	r.once(opTest, k, nil, true)
	r.c.Count("gaps", 1)
}

// noop is an operation that must change nothing.
func (r *Runner) noop(i int) {
	live, ok := r.pickLive()
	switch r.rng.Intn(4) {
	case 0:
		r.do(opTest, r.pick(), nil, r.ret())
	case 1:
		if ok {
			r.set(opSetIfNotExists, live)
		}
	default:
		k := r.absent()
		if k == nil {
			return
		}
		if i&1 == 0 {
			r.do(opClear, k, nil, r.ret())
		} else {
			r.set(opSetIfExists, k)
		}
	}
}

func (r *Runner) valueFor(op int, k []byte) []byte {
	if op == opClear || op == opTest {
		return nil
	}
	return r.newValue(k)
}

func (r *Runner) set(op int, k []byte) { r.do(op, k, r.newValue(k), r.ret()) }

// absent makes a key the model doesn't hold, close to one of the pool.
func (r *Runner) absent() []byte {
	for try := 0; try < 8; try++ {
		k := append([]byte{}, r.pick()...)
		switch r.rng.Intn(4) {
		case 0:
			k = append(k, byte(r.rng.Intn(256)))
		case 1:
			if len(k) > 0 {
				k = k[:len(k)-1]
			}
		case 2:
			if len(k) > 0 {
				k[r.rng.Intn(len(k))] ^= byte(1 << uint(r.rng.Intn(8)))
			}
		}
		if _, ok := r.m.Get(string(k)); !ok {
			return k
		}
	}
	return nil
}

// verify compares the whole content with the model.
func (r *Runner) verify(pointwise bool) {
	c, s, m := r.c, r.s, r.m
	if s.Ordered() {
		verifyOrdered(c, s, m)
	} else {
		verifyScan(c, s, m)
	}
	if pointwise {
		limit := 20000
		for i, k := range m.live {
			if i > limit {
				break
			}
			step()
			v := m.m[k]
			out, ok := s.Apply(opTest, []byte(k), nil, true)
			if ok != 1 {
				c.Failf("lost", "%s holds %d keys but Test(%s) tells it isn't there", s.Kind, m.Len(), short([]byte(k)))
			}
			if !eqBytes(out, v) {
				c.Failf("value", "%s Test(%s) returned a wrong value: %s", s.Kind, short([]byte(k)), diffAt(out, v))
			}
		}
		for i, size := 0, 0; i < 200 && size < 1<<25; i++ {
			if k := r.absent(); k != nil {
				step()
				size += len(k)
				if out, ok := s.Apply(opTest, k, nil, true); ok == 1 {
					c.Failf("ghost", "%s Test(%s) tells the absent key is there with %s", s.Kind, short(k), short(out))
				}
			}
		}
	}
	c.Count("verifications", 1)
	c.Count("verified.items", int64(m.Len()))
}

func verifyOrdered(c *Ctx, s *Store, m *Model) {
	it := s.Range(true, bptree.MinKey, bptree.MaxKey)
	n := 0
	for _, ch := range m.keys.chunks {
		for _, k := range ch {
			step()
			if it.IsAtEnd() {
				c.Failf("lost", "%s: the iteration over all ended after %d of %d records, before %s", s.Kind, n, m.Len(), short([]byte(k)))
			}
			gk, gv, err := it.ReadRecordAll()
			if err != nil {
				c.Failf("iterator", "ReadRecordAll failed: %v", err)
			}
			if !eqBytes(gk, k) {
				c.Failf("order", "%s: record %d of %d has a wrong key: %s", s.Kind, n, m.Len(), diffAt(gk, k))
			}
			if !eqBytes(gv, m.m[k]) {
				c.Failf("value", "%s: record %d of %d, key %s, has a wrong value: %s", s.Kind, n, m.Len(), short(gk), diffAt(gv, m.m[k]))
			}
			n++
			it.Advance()
		}
	}
	if !it.IsAtEnd() {
		k, _ := it.ReadKeyAll()
		c.Failf("ghost", "%s: the iteration over all goes on after all %d records, with %s", s.Kind, n, short(k))
	}
}

func verifyScan(c *Ctx, s *Store, m *Model) {
	var cur Cursor
	seen := make(map[string]struct{}, m.Len())
	for {
		step()
		k, v, ok := s.Scan(&cur)
		if !ok {
			break
		}
		if _, dup := seen[string(k)]; dup {
			c.Failf("twice", "%s: the scan returned %s twice", s.Kind, short(k))
		}
		want, ok := m.m[string(k)]
		if !ok {
			c.Failf("ghost", "%s: the scan returned %s, which isn't there", s.Kind, short(k))
		}
		if !eqBytes(v, want) {
			c.Failf("value", "%s: the scan returned a wrong value of %s: %s", s.Kind, short(k), diffAt(v, want))
		}
		seen[string(k)] = struct{}{}
	}
	if len(seen) != m.Len() {
		for _, k := range m.live {
			if _, ok := seen[k]; !ok {
				c.Failf("lost", "%s: the scan returned %d of %d items; %s is missing", s.Kind, len(seen), m.Len(), short([]byte(k)))
			}
		}
	}
}

func sameBytes(a, b []byte) bool { return bytes.Equal(a, b) }
