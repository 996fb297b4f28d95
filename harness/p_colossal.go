package main

import (
	"bytes"
	"fmt"
	"sort"
	"sync/atomic"
	"syscall"

	"github.com/roy2220/plainkv"
)

// Values of so many bytes that their lengths need more than 28 or 31 bits, and
// payloads that need more than 31 or 32. There is too much of it for the
// ordinary reference map, so this keeps one of lengths: all values are the
// first so many bytes of one block.

type colossus struct {
	c     *Ctx
	s     *Store
	block []byte
	lens  map[string]int
}

// newColossus maps a block, most pages of which are never touched.
func newColossus(c *Ctx, kind string, size int) (*colossus, func()) {
	limitFiles(farFileMax)
	atomic.StoreInt64(&memoryLimit, colossalMemoryMax)
	block, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	for i := 0; i+8 <= size; i += 3<<20 + 4099 {
		c.Rng.Fill(block[i : i+8])
	}
	for sh := uint(7); sh < 34; sh++ {
		// what is at the powers of two differs from what is elsewhere
		if i := 1<<sh - 150; i > 0 && i+300 <= size {
			c.Rng.Fill(block[i : i+300])
		}
	}
	c.Rng.Fill(block[:700])
	c.Rng.Fill(block[size-700:])
	x := &colossus{c: c, s: &Store{Kind: kind, Path: c.Path("store")}, block: block, lens: map[string]int{}}
	if err := x.s.Open(true); err != nil {
		c.Failf("open", "opening %s failed: %v", kind, err)
	}
	return x, func() { syscall.Munmap(block) }
}

// stats compares what the store tells with what is there.
func (x *colossus) stats(after string) {
	step()
	payload := 0
	for k, n := range x.lens {
		payload += len(k) + n
	}
	sh := x.s.Shape()
	if sh.Count != len(x.lens) || sh.Payload != payload {
		x.c.Failf("stats", "after %s: %d items and a payload of %d are told, there are %d of %d", after, sh.Count, sh.Payload, len(x.lens), payload)
	}
	x.c.Max("payload", int64(payload))
	x.c.Count("stats.checked", 1)
}

func (x *colossus) do(op int, k string, n int) {
	step()
	x.c.Trace(fmt.Sprintf("%s(%q, %d bytes)", opNames[op], k, n))
	_, was := x.lens[k]
	_, ok := x.s.Apply(op, []byte(k), x.block[:n:n], false)
	want := was
	if op == opSet || op == opSetIfNotExists {
		want = !was
	}
	if ok >= 0 && (ok == 1) != want {
		x.c.Failf("result", "%s of %q returned %v, want %v", opNames[op], k, ok == 1, want)
	}
	switch {
	case op == opClear:
		delete(x.lens, k)
	case op == opSet || op == opSetIfExists && was || op == opSetIfNotExists && !was:
		x.lens[k] = n
	}
	x.c.Count("ops", 1)
	x.stats(fmt.Sprintf("%s(%q, %d bytes)", opNames[op], k, n))
}

func (x *colossus) same(what, k string, v []byte) {
	step()
	n, ok := x.lens[k]
	if !ok {
		x.c.Failf("present", "%s: %q was removed or never there", what, k)
	}
	if len(v) != n {
		x.c.Failf("value", "%s of %q: %d bytes, want %d", what, k, len(v), n)
	}
	if !bytes.Equal(v, x.block[:n]) {
		i := 0
		for v[i] == x.block[i] {
			i++
		}
		x.c.Failf("value", "%s of %q: differs at %d of %d", what, k, i, n)
	}
	x.c.Count("values.compared", 1)
	x.c.Count("bytes.compared", int64(n))
}

// test reads a value whole.
func (x *colossus) test(k string) {
	step()
	v, ok := x.s.Apply(opTest, []byte(k), nil, true)
	if _, want := x.lens[k]; (ok == 1) != want {
		x.c.Failf("result", "Test of %q returned %v, want %v", k, ok == 1, want)
	}
	if ok == 1 {
		x.same("Test", k, v)
	}
}

// all reads everything there is, in order or by a scan.
func (x *colossus) all() {
	var keys []string
	for k := range x.lens {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if !x.s.Ordered() {
		var cur Cursor
		seen := map[string]bool{}
		for {
			step()
			k, v, ok := x.s.Scan(&cur)
			if !ok {
				break
			}
			if seen[string(k)] {
				x.c.Failf("scan", "%q came twice", k)
			}
			seen[string(k)] = true
			x.same("Scan", string(k), v)
		}
		if len(seen) != len(keys) {
			x.c.Failf("scan", "%d of %d items came", len(seen), len(keys))
		}
		return
	}
	it := x.s.Range(true, plainkv.MinKey, plainkv.MaxKey)
	for _, k := range keys {
		step()
		if it.IsAtEnd() {
			x.c.Failf("range", "the end comes before %q", k)
		}
		n := x.lens[k]
		if got, err := it.GetKeySize(); err != nil || got != len(k) {
			x.c.Failf("key-size", "%q: GetKeySize returned %d, %v", k, got, err)
		}
		if got, err := it.GetValueSize(); err != nil || got != n {
			x.c.Failf("value-size", "%q: GetValueSize returned %d, %v; want %d", k, got, err, n)
		}
		if got, err := it.ReadKeyAll(); err != nil || string(got) != k {
			x.c.Failf("read-key", "ReadKeyAll returned %q, %v; want %q", got, err, k)
		}
		spots := []int{0, 100, 121, n - 90, n - 1, n, n + 5}
		for sh := uint(27); sh < 34; sh++ {
			spots = append(spots, 1<<sh-40, 1<<sh)
		}
		for _, off := range spots {
			if off < 0 {
				continue
			}
			buf := bytes.Repeat([]byte{canary}, 80)
			want := n - off
			if want < 0 {
				want = 0
			} else if want > 64 {
				want = 64
			}
			got, err := it.ReadValue(off, buf[8:72])
			if err != nil || got != want || want > 0 && !bytes.Equal(buf[8:8+want], x.block[off:off+want]) {
				x.c.Failf("partial-Value", "%q: ReadValue(%d, 64 bytes) of %d returned %d, %v, want %d; or wrong bytes", k, off, n, got, err, want)
			}
			for i, b := range buf {
				if (i < 8 || i >= 8+want) && b != canary {
					x.c.Failf("partial-overrun", "%q: ReadValue(%d, 64 bytes) of %d wrote at %d", k, off, n, i-8)
				}
			}
			x.c.Count("partial.reads", 1)
		}
		it.Advance()
	}
	if !it.IsAtEnd() {
		x.c.Failf("range", "more than %d records come", len(keys))
	}
}

func (x *colossus) reopen() {
	step()
	if err := x.s.Close(); err != nil {
		x.c.Failf("close", "closing failed: %v", err)
	}
	if err := x.s.Open(false); err != nil {
		x.c.Failf("open", "opening again failed: %v", err)
	}
	x.c.Count("reopens", 1)
	x.stats("opening again")
}

// colossalCase sets, reads, keeps and removes values of the sizes given and,
// so that the payload grows, as many more of the first size as told.
func colossalCase(kind string, copies int, sizes ...int) Case {
	name := fmt.Sprintf("real#colossal:%s %d times %v", kind, copies, sizes)
	return Case{Name: name, Variant: "real", Cost: 12, Run: func(c *Ctx) {
		max := 1 << 20
		for _, n := range sizes {
			if n > max {
				max = n
			}
		}
		x, done := newColossus(c, kind, max)
		defer done()
		x.do(opSet, "a", 100)
		x.do(opSetIfNotExists, "z", 1000)
		for i, n := range sizes {
			k := fmt.Sprintf("k%d", i)
			x.do([]int{opSetIfNotExists, opSet}[i&1], k, n)
			if n < 1<<31 || c.Prop == "C01" || thorough(c.Tier) {
				x.test(k)
			}
			if i == len(sizes)-1 {
				for j := 0; j < copies; j++ {
					x.do(opSet, fmt.Sprintf("copy%d", j), sizes[0])
				}
				x.reopen()
			}
			x.all()
			x.do(opSetIfNotExists, k, 3)
			if n < 1<<31 || thorough(c.Tier) {
				x.do(opSetIfExists, k, n-1-c.Rng.Intn(100))
			}
			if i < len(sizes)-1 || c.Rng.Chance(1, 2) {
				x.do(opSet, k, 5)
				x.test(k)
			}
		}
		x.test("a")
		x.test("z")
		for i := range sizes {
			x.do(opClear, fmt.Sprintf("k%d", i), 0)
		}
		for j := 0; j < copies; j++ {
			x.do(opClear, fmt.Sprintf("copy%d", j), 0)
		}
		x.all()
		x.reopen()
		x.test("z")
		if err := x.s.Close(); err != nil {
			c.Failf("close", "closing failed: %v", err)
		}
		c.Count("colossal", 1)
		c.Observe(uint64(len(sizes)))
		c.sample = fmt.Sprintf("values of %v bytes, %d compared, payloads of up to %d", sizes, c.counters["values.compared"], c.max["payload"])
		c.Nontrivial()
	}}
}
