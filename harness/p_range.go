package main

import (
	"fmt"
	"math"

	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
)

// C03: ranges. C04: what an iterator reads. C19: the dump.

func rangePlans(tier string, rng *Rng, kinds ...string) []Plan {
	ps := []Plan{
		{Kind: "od", Keys: "tiny", Vals: "small", Pool: 300, Phases: steps("fill:1 fill:2 fill:3 churn:300 thin:80 fill shrinkmid:60 churn:200 drain churn:5")},
		{Kind: "od", Keys: "sentinel", Vals: "bound", Pool: 400, Phases: steps("fill:15 churn:500 fill thin:100 shrinkmid:50 drainasc")},
		{Kind: "od", Keys: "prefix", Vals: "bound", Pool: 3000, Phases: steps("fill thin:700 mixed:2000 shrinkmid:500 mixed:500")},
		{Kind: "od", Keys: "chain", Vals: "page", Pool: 700, Phases: steps("fill thin:200 mixed:2000 shrinkmid:100")},
		{Kind: "od", Keys: "long", Vals: "page", Pool: 6000, Phases: steps("fill thin:1500 mixed:4000 shrinkmid:1000 shrinkdesc:500 shrinkasc:500")},
		{Kind: "od", Keys: "bound", Vals: "bound", Pool: 6000, Phases: steps("fill thin:1500 mixed:4000 shrinkmid:1000 shrinkdesc:500 shrinkasc:500")},
		{Kind: "od", Keys: "num", Vals: "page", Pool: 20000, Phases: steps("fillasc thin:5000 shrinkmid:4000 shrinkdesc:2000 shrinkasc:2000 mixed:3000")},
		{Kind: "bpt", Keys: "max256", Vals: "max128", Pool: 5000, Phases: steps("filldesc thin:1500 empty mixed:4000 shrinkmid:1000 shrinkdesc:500 shrinkasc:500")},
		{Kind: "od", Keys: "binary", Vals: "page", Pool: 3000, Phases: steps("fillinterleave thin:800 mixed:3000 shrinkmid:500 shrinkdesc:300 shrinkasc:300")},
		{Kind: "od", Keys: "mixed", Vals: "mixed", Pool: 8000, Phases: steps("fill thin:2000 mixed:6000 shrinkmid:1000 shrinkdesc:500 shrinkasc:500 resize:1000")},
	}
	ps = append(ps,
		Plan{Kind: "od", Keys: "deep", Vals: "page", Pool: 800, Phases: steps("fill thin:200 mixed:2000 shrinkmid:200 mixed:300")},
		Plan{Kind: "od", Keys: "max256", Vals: "max128", Pool: 30000, Phases: steps("fillasc thin:7000 shrinkmid:10000"), Cost: 2})
	ps = append(ps, huntPlans(rng, pickN(tier, 12, 100))...)
	ps = append(ps, farPlans(3, "od", "bpt")...)
	ps = append(ps, tallPlans(pickN(tier, 1, 4), false, "od")...)
	return append(ps, randomPlans(rng, pickN(tier, 180, 900), 5000, kinds...)...)
}

// bound is one end of a range.
type bound struct {
	key  []byte
	what string
}

func (r *Runner) bound() bound {
	switch r.rng.Intn(16) {
	case 0:
		return bound{plainkv.MinKey, "MinKey"}
	case 1:
		return bound{plainkv.MaxKey, "MaxKey"}
	case 2:
		return bound{append([]byte{}, "MIN_KEY"...), "literal"}
	case 3:
		return bound{append([]byte{}, "MAX_KEY"...), "literal"}
	case 4:
		return bound{[]byte{}, "empty"}
	case 5:
		b := make([]byte, r.rng.Pick(1, 3, 249, 256, 257, 300))
		for i := range b {
			b[i] = 0xff
		}
		return bound{b, "past"}
	case 6, 7, 8, 9, 10:
		if len(r.shared) > 0 && r.rng.Chance(1, 3) {
			return bound{r.shared[r.rng.Intn(len(r.shared))], "pool"}
		}
		if k, ok := r.pickLive(); ok {
			return bound{k, "present"}
		}
	case 11:
		return bound{append([]byte{}, r.pick()...), "pool"}
	case 12: // just behind a present key
		if k, ok := r.pickLive(); ok {
			return bound{append(k, 0), "after"}
		}
	case 13: // a prefix of a present key
		if k, ok := r.pickLive(); ok && len(k) > 0 {
			return bound{k[:r.rng.Intn(len(k))], "prefix"}
		}
	}
	if k := r.absent(); k != nil {
		return bound{k, "absent"}
	}
	return bound{[]byte("x"), "absent"}
}

// near makes a bound some records after lo.
func (r *Runner) near(lo bound) bound {
	base := string(lo.key)
	switch lo.what {
	case "MinKey":
		base, _ = r.m.keys.first()
	case "MaxKey":
		base, _ = r.m.keys.last()
	}
	ks := r.m.keys.from(base, r.rng.Pick(1, 1, 2, 3, 10, 60))
	if len(ks) == 0 {
		return r.bound()
	}
	k := []byte(ks[len(ks)-1])
	switch r.rng.Intn(4) {
	case 0:
		return bound{append(k, byte(r.rng.Intn(3))), "after"}
	case 1:
		if len(k) > 0 && k[len(k)-1] > 0 {
			k[len(k)-1]--
			return bound{append(k, 0xff), "before"}
		}
	}
	return bound{k, "present"}
}

// expect tells the keys of a range in ascending order.
func (r *Runner) expect(lo, hi bound) []string {
	if r.m.Len() == 0 {
		return nil
	}
	first, _ := r.m.keys.first()
	last, _ := r.m.keys.last()
	value := func(b bound) string {
		switch b.what {
		case "MinKey":
			return first
		case "MaxKey":
			return last
		}
		return string(b.key)
	}
	return r.m.keys.between(value(lo), value(hi))
}

// ranges checks a number of ranges.
func (r *Runner) ranges(n int) {
	c := r.c
	for q := 0; q < n; q++ {
		lo := r.bound()
		hi := r.bound()
		if r.rng.Chance(2, 3) {
			hi = r.near(lo)
		}
		if r.rng.Chance(1, 12) {
			hi = bound{append([]byte{}, lo.key...), lo.what}
			if lo.what == "MinKey" || lo.what == "MaxKey" {
				hi = lo
			}
		}
		want := r.expect(lo, hi)
		if len(want) > 400 && !r.rng.Chance(1, 10) {
			continue
		}
		asc := q&1 == 0
		r.checkRange(asc, lo, hi, want)
		c.Count("ranges", 1)
		c.Count("range."+lo.what+"-"+hi.what, 1)
		switch len(want) {
		case 0:
			c.Count("ranges.empty", 1)
		case 1:
			c.Count("ranges.one", 1)
		default:
			c.Count("ranges.many", 1)
		}
		c.Count("range.records", int64(len(want)))
		c.Observe(uint64(len(want))<<1 | uint64(q&1))
	}
}

func (r *Runner) checkRange(asc bool, lo, hi bound, want []string) {
	c := r.c
	name := fmt.Sprintf("range asc=%v [%s %s, %s %s] over %d records", asc, lo.what, short(lo.key), hi.what, short(hi.key), r.m.Len())
	c.Trace(name)
	loCopy, hiCopy := string(lo.key), string(hi.key)
	it := r.s.Range(asc, lo.key, hi.key)
	if string(lo.key) != loCopy || string(hi.key) != hiCopy {
		c.Failf("bounds-changed", "%s: the bounds were written to", name)
	}
	for i := range want {
		step()
		w := want[i]
		if !asc {
			w = want[len(want)-1-i]
		}
		if it.IsAtEnd() {
			c.Failf("range-short", "%s ended after %d of %d records, before %s", name, i, len(want), short([]byte(w)))
		}
		k, err := it.ReadKeyAll()
		if err != nil {
			c.Failf("range-error", "%s: reading key %d failed: %v", name, i, err)
		}
		if !eqBytes(k, w) {
			c.Failf("range-key", "%s: record %d of %d: %s", name, i, len(want), diffAt(k, w))
		}
		v, err := it.ReadValueAll()
		if err != nil {
			c.Failf("range-error", "%s: reading value %d failed: %v", name, i, err)
		}
		if !eqBytes(v, r.m.m[w]) {
			c.Failf("range-value", "%s: record %d, key %s: %s", name, i, short(k), diffAt(v, r.m.m[w]))
		}
		it = it.Advance()
	}
	if !it.IsAtEnd() {
		k, _ := it.ReadKeyAll()
		c.Failf("range-long", "%s goes on after its %d records, with %s", name, len(want), short(k))
	}
}

// beyond checks ranges that lie before all records and behind them, or reach
// there from the outermost ones.
func (r *Runner) beyond() {
	last, _ := r.m.keys.last()
	first, ok := r.m.keys.first()
	if !ok {
		first, last = "m", "m"
	}
	past := bound{append([]byte(last), 0), "past"}
	far := bound{append([]byte(last), 0xff), "past"}
	end := bound{[]byte(last), "present"}
	zero := bound{[]byte{}, "empty"}
	low := bound{[]byte(first), "present"}
	if n := len(low.key); n > 0 {
		low = bound{low.key[:n-1], "prefix"}
	}
	max := bound{plainkv.MaxKey, "MaxKey"}
	min := bound{plainkv.MinKey, "MinKey"}
	for _, x := range [][2]bound{{past, far}, {past, past}, {end, far}, {zero, low}, {zero, zero}, {low, low}, {past, max}, {max, max}, {min, min}, {end, max}, {min, low}, {max, min}} {
		lo, hi := x[0], x[1]
		want := r.expect(lo, hi)
		r.checkRange(true, lo, hi, want)
		r.checkRange(false, lo, hi, want)
		r.c.Count("ranges.beyond", 2)
	}
}

// walk is an iteration in progress.
type walk struct {
	it   bptree.Iterator
	want []string
	asc  bool
	i    int
	name string
}

func (r *Runner) newWalk(asc bool) *walk {
	lo := r.bound()
	hi := r.near(lo)
	return &walk{it: r.s.Range(asc, lo.key, hi.key), want: r.expect(lo, hi), asc: asc,
		name: fmt.Sprintf("interleaved range asc=%v [%s, %s]", asc, short(lo.key), short(hi.key))}
}

// walkStep goes a step and tells whether there may be more.
func (r *Runner) walkStep(x *walk) bool {
	step()
	c := r.c
	if x.i == len(x.want) {
		if !x.it.IsAtEnd() {
			c.Failf("range-long", "%s goes on after its %d records", x.name, len(x.want))
		}
		return false
	}
	w := x.want[x.i]
	if !x.asc {
		w = x.want[len(x.want)-1-x.i]
	}
	k, v, err := x.it.ReadRecordAll()
	if err != nil || x.it.IsAtEnd() {
		c.Failf("range-short", "%s ended after %d of %d records: %v", x.name, x.i, len(x.want), err)
	}
	if !eqBytes(k, w) || !eqBytes(v, r.m.m[w]) {
		c.Failf("range-key", "%s: record %d: %s; %s", x.name, x.i, diffAt(k, w), diffAt(v, r.m.m[w]))
	}
	if r.rng.Chance(1, 8) {
		r.readParts(x.it, w, r.m.m[w], 1)
	}
	x.it.Advance()
	x.i++
	return true
}

// manyIterators runs iterators side by side, and alongside what changes nothing.
func (r *Runner) manyIterators() {
	var walks []*walk
	for j := 0; j < 6; j++ {
		walks = append(walks, r.newWalk(j&1 == 0))
	}
	for n := 0; n < 400; n++ {
		r.walkStep(walks[r.rng.Intn(len(walks))])
		if r.rng.Chance(1, 4) {
			r.noop(n)
		}
	}
	r.c.Count("interleavings", 1)
}

const canary = 0xA5

// readParts reads the current record of an iterator in parts.
func (r *Runner) readParts(it bptree.Iterator, key, value string, reads int) {
	c := r.c
	name := fmt.Sprintf("record %s", short([]byte(key)))
	if n, err := it.GetKeySize(); err != nil || n != len(key) {
		c.Failf("key-size", "%s: GetKeySize returned %d, %v; want %d", name, n, err, len(key))
	}
	if n, err := it.GetValueSize(); err != nil || n != len(value) {
		c.Failf("value-size", "%s: GetValueSize returned %d, %v; want %d", name, n, err, len(value))
	}
	part := func(what string, data string, offset, size int, read func(int, []byte) (int, error)) {
		step()
		backing := make([]byte, size+32)
		for i := range backing {
			backing[i] = canary
		}
		// a read must not look past the length of the buffer
		n, err := read(offset, backing[16:16+size])
		want := 0
		if offset < len(data) {
			want = len(data) - offset
			if want > size {
				want = size
			}
		}
		if err != nil || n != want {
			c.Failf("partial-"+what, "%s: Read%s(%d, %d bytes) of %d returned %d, %v; want %d", name, what, offset, size, len(data), n, err, want)
		}
		if want > 0 && !eqBytes(backing[16:16+n], data[offset:offset+want]) {
			c.Failf("partial-"+what, "%s: Read%s(%d, %d bytes) of %d: %s", name, what, offset, size, len(data), diffAt(backing[16:16+n], data[offset:offset+want]))
		}
		for i, b := range backing {
			if (i < 16 || i >= 16+n) && b != canary {
				c.Failf("partial-overrun", "%s: Read%s(%d, %d bytes) returned %d but wrote at %d", name, what, offset, size, n, i-16)
			}
		}
		c.Count("partial.reads", 1)
	}
	spots := func(n int, prefix int) int {
		xs := []int{0, 1, prefix - 1, prefix, prefix + 1, prefix + 8, n - 1, n, n + 1, n + 300, r.rng.Intn(n + 1)}
		x := xs[r.rng.Intn(len(xs))]
		if x < 0 {
			x = 0
		}
		return x
	}
	for i := 0; i < reads; i++ {
		off := spots(len(key), 249)
		end := spots(len(key), 249)
		if end < off {
			off, end = end, off
		}
		part("Key", key, off, end-off, it.ReadKey)
		off = spots(len(value), 121)
		end = spots(len(value), 121)
		if end < off {
			off, end = end, off
		}
		part("Value", value, off, end-off, it.ReadValue)
	}
	// offsets that are far beyond any end
	for _, off := range []int{1 << 31, 1 << 32, math.MaxInt64 - 3, math.MaxInt64} {
		part("Key", key, off, 8, it.ReadKey)
		part("Value", value, off, 8, it.ReadValue)
	}
	k, err := it.ReadKeyAll()
	if err != nil || !eqBytes(k, key) {
		c.Failf("read-key", "%s: ReadKeyAll: %v, %s", name, err, diffAt(k, key))
	}
	v, err := it.ReadValueAll()
	if err != nil || !eqBytes(v, value) {
		c.Failf("read-value", "%s: ReadValueAll: %v, %s", name, err, diffAt(v, value))
	}
	k, v, err = it.ReadRecordAll()
	if err != nil || !eqBytes(k, key) || !eqBytes(v, value) {
		c.Failf("read-record", "%s: ReadRecordAll: %v, %s, %s", name, err, diffAt(k, key), diffAt(v, value))
	}
	if it.IsAtEnd() {
		c.Failf("at-end", "%s: reading moved the iterator to its end", name)
	}
}

// atEnd checks an iterator that has no more records.
func atEnd(c *Ctx, it bptree.Iterator) {
	buf := make([]byte, 40)
	for i := range buf {
		buf[i] = canary
	}
	for try := 0; try < 3; try++ {
		step()
		if !it.IsAtEnd() {
			c.Failf("end", "an iterator at its end came back to life after %d Advance", try)
		}
		if n, err := it.GetKeySize(); err == nil || n != 0 {
			c.Failf("end", "GetKeySize at the end returned %d, %v", n, err)
		}
		if n, err := it.GetValueSize(); err == nil || n != 0 {
			c.Failf("end", "GetValueSize at the end returned %d, %v", n, err)
		}
		if n, err := it.ReadKey(0, buf); err == nil || n != 0 {
			c.Failf("end", "ReadKey at the end returned %d, %v", n, err)
		}
		if n, err := it.ReadValue(0, buf); err == nil || n != 0 {
			c.Failf("end", "ReadValue at the end returned %d, %v", n, err)
		}
		if k, err := it.ReadKeyAll(); err == nil || k != nil {
			c.Failf("end", "ReadKeyAll at the end returned %s, %v", short(k), err)
		}
		if v, err := it.ReadValueAll(); err == nil || v != nil {
			c.Failf("end", "ReadValueAll at the end returned %s, %v", short(v), err)
		}
		if k, v, err := it.ReadRecordAll(); err == nil || k != nil || v != nil {
			c.Failf("end", "ReadRecordAll at the end returned %s, %s, %v", short(k), short(v), err)
		}
		for i, b := range buf {
			if b != canary {
				c.Failf("end", "a read at the end wrote at %d of the buffer", i)
			}
		}
		if it.Advance() == nil {
			c.Failf("end", "Advance at the end returned nil")
		}
	}
	c.Count("ends", 1)
}

// parts reads records in parts, walking asc or desc.
func (r *Runner) parts(limit, reads int) {
	for d := 0; d < 2; d++ {
		asc := d == 0
		lo, hi := plainkv.MinKey, plainkv.MaxKey
		if k, ok := r.pickLive(); ok && r.m.Len() > limit {
			if asc {
				lo = k
			} else {
				hi = k
			}
		}
		want := r.expect(bound{lo, endName(lo)}, bound{hi, endName(hi)})
		it := r.s.Range(asc, lo, hi)
		for i := range want {
			if i >= limit {
				break
			}
			w := want[i]
			if !asc {
				w = want[len(want)-1-i]
			}
			if it.IsAtEnd() {
				r.c.Failf("range-short", "the iteration ended after %d of %d records", i, len(want))
			}
			r.readParts(it, w, r.m.m[w], reads)
			if got := it.Advance(); got != it {
				r.c.Failf("advance", "Advance didn't return the iterator itself")
			}
			r.c.Count("records.read", 1)
		}
		if len(want) <= limit {
			atEnd(r.c, it)
		}
	}
	// an iterator over nothing
	atEnd(r.c, r.s.Range(true, []byte{2}, []byte{1}))
	atEnd(r.c, r.s.Range(false, []byte{2}, []byte{1}))
}

// amid checks some ranges again and again while a few keys and values around
// their bounds change, of one kind of change at a time.
func (r *Runner) amid(n int) {
	for ; n > 0; n-- {
		lo := r.bound()
		hi := r.near(lo)
		if len(r.expect(lo, hi)) > 300 {
			continue
		}
		kind := r.rng.Intn(5)
		asc := r.rng.Chance(1, 2)
		for i := 0; i < 6; i++ {
			want := r.expect(lo, hi)
			r.checkRange(asc, lo, hi, want)
			if r.rng.Chance(1, 3) {
				r.checkRange(!asc, lo, hi, want)
			}
			r.c.Count("ranges.amid", 1)
			for j := r.rng.Range(1, 30); j > 0; j-- {
				k := r.around(lo, hi, want)
				if k == nil {
					continue
				}
				_, live := r.m.Get(string(k))
				switch kind {
				case 4: // but for the numbers of records and bytes
					r.exchange(k)
				case 0: // values only
					r.do(opSetIfExists, k, r.newValue(k), r.ret())
				case 1:
					r.do(opSetIfNotExists, k, r.newValue(k), r.ret())
				case 2:
					if r.m.Len() > 20 {
						r.do(opClear, k, nil, r.ret())
					}
				default:
					if live && r.rng.Chance(1, 2) && r.m.Len() > 20 {
						r.do(opClear, k, nil, r.ret())
					} else {
						r.do(opSet, k, r.newValue(k), r.ret())
					}
				}
			}
		}
	}
}

// around picks a key within a range, or one just outside of it.
func (r *Runner) around(lo, hi bound, want []string) []byte {
	switch r.rng.Intn(5) {
	case 0:
		return r.pick()
	case 1, 2:
		b := lo
		if r.rng.Chance(1, 2) {
			b = hi
		}
		if b.what == "MinKey" || b.what == "MaxKey" {
			return nil
		}
		if ks := r.m.keys.from(string(b.key), 40); len(ks) > 0 {
			return []byte(ks[r.rng.Intn(len(ks))])
		}
	default:
		if len(want) > 0 {
			return []byte(want[r.rng.Intn(len(want))])
		}
	}
	return nil
}

func endName(k []byte) string {
	if len(k) == 7 && &k[0] == &plainkv.MinKey[0] {
		return "MinKey"
	}
	if len(k) == 7 && &k[0] == &plainkv.MaxKey[0] {
		return "MaxKey"
	}
	return "present"
}

func init() {
	register("C03", Property{
		Rule: "A case is a history on the real tree; after each phase ranges are read in both directions, with bounds drawn from present and absent keys, prefixes, extensions, the smallest and largest keys there can be, MinKey/MaxKey and keys that only look like them, and compared with a reference map. Non-trivial: at least 100 ranges of two or more records and 10 empty ones over a tree of several leafs, or a tree emptied and refilled. Distinct: by a hash of the contents and of the sizes of the ranges.",
		Cases: func(tier string, rng *Rng) []Case {
			n := pickN(tier, 250, 1500)
			ps := rangePlans(tier, rng, "od", "od", "bpt")
			return append(twinCases(rng, pickN(tier, 10, 60), func(r *Runner) {
				r.ranges(30)
				r.amid(2)
			}, "od", "bpt"), planCases("real", ps, func(c *Ctx, p Plan) {
				r := p.runner(c)
				r.noVerify = true
				r.ranges(20)
				r.hunted = func() { r.ranges(3) }
				r.Phase = func(string) {
					r.ranges(n)
					r.amid(12)
					r.beyond()
					r.manyIterators()
				}
				p.play(r)
				r.verify(false)
				r.mustClose()
				c.sample = fmt.Sprintf("%d ranges, %d records, %d empty", c.counters["ranges"], c.counters["range.records"], c.counters["ranges.empty"])
				if c.counters["ranges.many"] >= 100 && c.counters["ranges.empty"] >= 10 {
					c.Nontrivial()
				}
			})...)
		},
	})
	register("C04", Property{
		Rule: "A case is a history on the real tree; after each phase records are walked in both directions and every one is read whole and in parts, at offsets and lengths around 0, the sizes at which keys and values leave their page, and their own sizes, into buffers with canaries on both sides; iterators at their end are read too. Non-trivial: at least 500 partial reads. Distinct: by a hash of the contents.",
		Cases: func(tier string, rng *Rng) []Case {
			ps := rangePlans(tier, rng, "od", "od", "bpt")
			var cs []Case
			cs = append(cs, planCases("real", ps, func(c *Ctx, p Plan) {
				r := p.runner(c)
				r.noVerify = true
				r.parts(10, 1)
				r.hunted = func() { r.parts(5, 1) }
				r.Phase = func(string) { r.parts(150, 6) }
				p.play(r)
				r.mustClose()
				c.sample = fmt.Sprintf("%d partial reads of %d records, %d ends", c.counters["partial.reads"], c.counters["records.read"], c.counters["ends"])
				if c.counters["partial.reads"] >= 500 {
					c.Nontrivial()
				}
			})...)
			cs = append(cs, twinCases(rng, pickN(tier, 10, 60), func(r *Runner) { r.parts(30, 2) }, "od", "bpt")...)
			cs = append(cs, Case{Name: "sizes", Variant: "real", Cost: 2, Run: sizesCase("od")}, colossalCase("bpt", 0, 1<<31+300))
			return cs
		},
	})
}

// sizesCase stores a key and a value of every size around every boundary.
func sizesCase(kind string) func(c *Ctx) {
	return func(c *Ctx) {
		s := &Store{Kind: kind, Path: c.Path("store")}
		r := &Runner{c: c, s: s, m: NewModel(), val: "small", rng: NewRng(c.Rng.U64())}
		r.mustOpen(true)
		var sizes []int
		for i := 0; i <= 420; i++ {
			sizes = append(sizes, i)
		}
		for _, b := range []int{121 + 16384, 249 + 16384, 65536, 65536 + 121, 65536 + 249, 4096, 8192, 131072, 121 + 2097152, 249 + 2097152} {
			for d := -3; d <= 3; d++ {
				sizes = append(sizes, b+d)
			}
		}
		for _, n := range sizes {
			r.id++
			k := makeValue(r.id+1e6, n)
			r.pool = append(r.pool, k)
			vs := n
			if n > 1000000 {
				vs = 10
			}
			r.do(opSet, k, makeValue(r.id, vs), true)
			r.id++
			r.do(opTest, k, nil, true)
			k2 := []byte(fmt.Sprintf("value of %d bytes", n))
			r.pool = append(r.pool, k2)
			r.do(opSetIfNotExists, k2, makeValue(r.id, n), false)
			r.do(opTest, k2, nil, true)
		}
		r.verify(true)
		if s.Ordered() {
			r.parts(2000, 8)
		}
		// every size to every boundary size
		for i, k := range r.pool {
			r.id++
			r.do(opSetIfExists, k, makeValue(r.id, []int{0, 128, 129, 121, 16505, 70000, 300}[i%7]), true)
		}
		r.verify(true)
		if s.Ordered() {
			r.parts(300, 4)
		}
		r.reopen()
		r.verify(true)
		r.phase("drain", 0)
		r.mustClose()
		c.Nontrivial()
		c.Observe(uint64(c.counters["ops"]))
		c.sample = fmt.Sprintf("%d sizes of keys and of values", len(sizes))
	}
}
