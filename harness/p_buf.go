package main

import (
	"fmt"
	"os"
	"syscall"

	"github.com/roy2220/plainkv"
)

// C14: the buffers of the caller and those of the store are apart.

const (
	padding = 32
	scribed = 0x5A
)

// padded puts b into a larger buffer of canaries, with room to append.
func padded(b []byte) (backing, part []byte) {
	backing = make([]byte, len(b)+2*padding)
	for i := range backing {
		backing[i] = canary
	}
	copy(backing[padding:], b)
	return backing, backing[padding : padding+len(b)]
}

// padded is the function of this name, but half of the time with the buffer
// that was used for the same purpose before, which then holds something else.
func (h *hostile) padded(use int, b []byte) (backing, part []byte) {
	n := len(b) + 2*padding
	if !h.r.rng.Chance(1, 2) {
		return padded(b)
	}
	if cap(h.buffers[use]) < n {
		h.buffers[use] = make([]byte, n, 2*n)
	}
	backing = h.buffers[use][:n:n]
	for i := range backing {
		backing[i] = canary
	}
	copy(backing[padding:], b)
	h.r.c.Count("inputs.reused", 1)
	return backing, backing[padding : padding+len(b)]
}

func (r *Runner) unharmed(what string, backing []byte, want []byte) {
	for i, b := range backing {
		w := byte(canary)
		if i >= padding && i < padding+len(want) {
			w = want[i-padding]
		}
		if b != w {
			r.c.Failf("input-written", "%s: the %s passed was written to, at %d of %d", r.s.Kind, what, i-padding, len(want))
		}
	}
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = scribed
	}
}

// output is something the store returned.
type output struct {
	b    []byte
	want string
	what string
}

// A seal is memory to pass keys, values and bounds in that cannot be written
// to during the call, cannot be read beyond its end, and not at all once the
// call has returned.
type seal struct{ mem []byte }

const sealMax = 256 << 10

func newSeal() *seal {
	page := os.Getpagesize()
	mem, err := syscall.Mmap(-1, 0, sealMax+page, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	return &seal{mem[:sealMax]}
}

func (s *seal) protect(prot int) { mustDo(syscall.Mprotect(s.mem, prot)) }

// pass returns a copy of b that ends with the memory that can be read.
func (s *seal) pass(b []byte) []byte {
	s.protect(syscall.PROT_READ | syscall.PROT_WRITE)
	part := s.mem[len(s.mem)-len(b):]
	copy(part, b)
	s.protect(syscall.PROT_READ)
	return part[:len(b):len(b)]
}

func (s *seal) shut() { s.protect(syscall.PROT_NONE) }

func (s *seal) free() { syscall.Munmap(s.mem[:cap(s.mem)]) }

// sealing tells whether what is to be passed is to be passed in a seal.
func (h *hostile) sealing(parts ...[]byte) bool {
	for _, b := range parts {
		if len(b) > sealMax {
			return false
		}
	}
	if !h.r.rng.Chance(1, 4) {
		return false
	}
	h.r.c.Count("inputs.sealed", int64(len(parts)))
	return true
}

type hostile struct {
	r     *Runner
	seals [4]*seal
	held  []output
	n     int

	buffers [4][]byte // keys, values and bounds passed
}

const heldMax = 300

// returned takes an output: some are kept, to see that they stay, some are
// written to and appended to, to see that it doesn't matter.
func (h *hostile) returned(what string, b []byte) {
	r := h.r
	if b == nil {
		return
	}
	if r.rng.Chance(1, 3) {
		scribble(b)
		_ = append(b, "appended to what was returned"...)
		r.c.Count("outputs.scribbled", 1)
		return
	}
	o := output{b, string(b), what}
	if len(h.held) < heldMax {
		h.held = append(h.held, o)
	} else {
		h.check(h.n % heldMax)
		h.held[h.n%heldMax] = o
	}
	h.n++
	r.c.Count("outputs.held", 1)
}

func (h *hostile) check(i int) {
	o := h.held[i]
	if string(o.b) != o.want {
		h.r.c.Failf("output-changed", "%s: what %s returned earlier has changed: %s", h.r.s.Kind, o.what, diffAt(o.b, o.want))
	}
	h.r.c.Count("outputs.compared", 1)
}

func (h *hostile) checkAll() {
	for i := range h.held {
		h.check(i)
	}
}

func (h *hostile) apply(op int, k, v []byte, ret bool) ([]byte, int) {
	r := h.r
	if h.sealing(k, v) {
		kp, vp := h.seals[0].pass(k), h.seals[1].pass(v)
		out, ok := r.s.Apply(op, kp, vp, ret)
		h.seals[0].shut()
		h.seals[1].shut()
		res := append([]byte(nil), out...) // faults if it is what was passed
		h.returned(opNames[op], out)
		r.c.Count("inputs", 1)
		return res, ok
	}
	kb, kp := h.padded(0, k)
	vb, vp := h.padded(1, v)
	same := false
	if op != opClear && op != opTest && len(v) <= len(k) && r.rng.Chance(1, 2) && string(v) == string(k[:len(v)]) {
		vp, same = kp[:len(v)], true // the value is part of the key passed
		r.c.Count("inputs.shared", 1)
	}
	if op == opClear || op == opTest {
		vp = nil
	}
	out, ok := r.s.Apply(op, kp, vp, ret)
	name := opNames[op]
	r.unharmed("key", kb, k)
	if vp != nil && !same {
		r.unharmed("value", vb, v)
	}
	scribble(kb)
	scribble(vb)
	res := append([]byte(nil), out...)
	h.returned(name, out)
	r.c.Count("inputs", 1)
	return res, ok
}

// iterate reads with an iterator whose bounds were scribbled over.
func (h *hostile) iterate() {
	r := h.r
	for q := 0; q < 12; q++ {
		lo := r.bound()
		hi := r.near(lo)
		want := r.expect(lo, hi)
		lb, hb := lo.key, hi.key
		var bufs [][]byte
		sealed := h.sealing(lo.key, hi.key)
		pass := func(use int, b []byte) (backing, part []byte) {
			if sealed {
				return nil, h.seals[use].pass(b)
			}
			return h.padded(use, b)
		}
		if lo.what != "MinKey" && lo.what != "MaxKey" {
			b, p := pass(2, lo.key)
			lb, bufs = p, append(bufs, b)
		}
		if hi.what != "MinKey" && hi.what != "MaxKey" {
			b, p := pass(3, hi.key)
			hb, bufs = p, append(bufs, b)
		}
		asc := q&1 == 0
		it := r.s.Range(asc, lb, hb)
		for _, b := range bufs {
			scribble(b)
		}
		h.seals[2].shut()
		h.seals[3].shut()
		if string(plainkv.MinKey) != "MIN_KEY" || string(plainkv.MaxKey) != "MAX_KEY" {
			r.c.Failf("input-written", "MinKey is %q, MaxKey %q", plainkv.MinKey, plainkv.MaxKey)
		}
		for i := range want {
			step()
			w := want[i]
			if !asc {
				w = want[len(want)-1-i]
			}
			if i == 100 {
				break
			}
			k1, v1, err := it.ReadRecordAll()
			if err != nil || !eqBytes(k1, w) || !eqBytes(v1, r.m.m[w]) {
				r.c.Failf("iterator", "%s: record %d of %d of a range whose bounds were scribbled over: %v, %s", r.s.Kind, i, len(want), err, diffAt(k1, w))
			}
			k2, _ := it.ReadKeyAll()
			v2, _ := it.ReadValueAll()
			h.returned("ReadRecordAll", k1)
			if !eqBytes(v1, r.m.m[w]) {
				r.c.Failf("output-changed", "%s: writing to the key ReadRecordAll returned changed the value", r.s.Kind)
			}
			h.returned("ReadRecordAll", v1)
			if !eqBytes(k2, w) || !eqBytes(v2, r.m.m[w]) {
				r.c.Failf("output-changed", "%s: writing to what was read changed what was read separately: %s", r.s.Kind, diffAt(k2, w))
			}
			h.returned("ReadKeyAll", k2)
			h.returned("ReadValueAll", v2)
			if k3, err := it.ReadKeyAll(); err != nil || !eqBytes(k3, w) {
				r.c.Failf("output-shared", "%s: writing to what was read changed the record: %s", r.s.Kind, diffAt(k3, w))
			}
			if v3, err := it.ReadValueAll(); err != nil || !eqBytes(v3, r.m.m[w]) {
				r.c.Failf("output-shared", "%s: writing to what was read changed the record: %s", r.s.Kind, diffAt(v3, r.m.m[w]))
			}
			it.Advance()
			r.c.Count("iterated", 1)
		}
	}
}

// scan scans and writes to everything returned.
func (h *hostile) scan() {
	r := h.r
	for round := 0; round < 2; round++ {
		var cur Cursor
		n := 0
		for {
			step()
			k, v, ok := r.s.Scan(&cur)
			if !ok {
				break
			}
			ks := string(k)
			want, ok := r.m.Get(ks)
			if !ok || !eqBytes(v, want) {
				r.c.Failf("output-shared", "%s: a scan whose items are written to returned %s: %s", r.s.Kind, short(k), diffAt(v, want))
			}
			if r.rng.Chance(1, 2) {
				scribble(k)
				_ = append(k, "appended to the key"...)
				if !eqBytes(v, want) {
					r.c.Failf("output-shared", "%s: writing to a key scanned, %s, changed its value: %s", r.s.Kind, short([]byte(ks)), diffAt(v, want))
				}
				h.returned("Scan", v)
			} else {
				scribble(v)
				_ = append(v, "appended to the value"...)
				if string(k) != ks {
					r.c.Failf("output-shared", "%s: writing to a value scanned changed its key: %s", r.s.Kind, diffAt(k, ks))
				}
				h.returned("Scan", k)
			}
			n++
		}
		if n != r.m.Len() {
			r.c.Failf("output-shared", "%s: a scan whose items are written to returned %d of %d", r.s.Kind, n, r.m.Len())
		}
		r.c.Count("scanned", int64(n))
	}
}

func bufPlans(tier string, rng *Rng) []Plan {
	var ps []Plan
	for _, kind := range []string{"od", "dict", "bpt", "hm"} {
		ps = append(ps,
			Plan{Kind: kind, Keys: "tiny", Vals: "mixed", Pool: 300, Phases: steps("churn:1500 drain churn:1500")},
			Plan{Kind: kind, Keys: "bound", Vals: "bound", Pool: 3000, Phases: steps("fill mixed:5000 thin:800 mixed:3000")},
			Plan{Kind: kind, Keys: "long", Vals: "bound", Pool: 1500, Phases: steps("fill mixed:3000 thin:400 mixed:2000 drain")},
			Plan{Kind: kind, Keys: "collide", Vals: "bound", Pool: 500, Phases: steps("fill mixed:3000 shrink:300 mixed:1000")},
			Plan{Kind: kind, Keys: "words", Vals: "big", Pool: 300, Phases: steps("fill resize:600 mixed:1000")},
		)
	}
	return append(ps, randomPlans(rng, pickN(tier, 80, 800), 4000, "od", "bpt", "dict", "hm")...)
}

func init() {
	register("C14", Property{
		Rule:    "A case is a history, on the real and on the sanitizing storage (where views of it fault once stale). Keys and values are passed in larger buffers of canaries, which are looked at after each call and then overwritten, the bounds of ranges too, or in memory that cannot be written to during the call, nor read once it has returned; what is returned is either kept and looked at again later, after Close at last, or overwritten up to its capacity and appended to. Results and contents are compared with a reference map. Non-trivial: 1000 inputs and 100 outputs of each treatment. Distinct: by a hash of the contents and shapes.",
		MustSee: []string{"outputs.held", "outputs.compared", "outputs.scribbled", "iterated", "scanned", "inputs.shared", "inputs.reused", "inputs.sealed", "values.related"},
		Cases: func(tier string, rng *Rng) []Case {
			run := func(c *Ctx, p Plan) {
				r := p.runner(c)
				h := &hostile{r: r}
				for i := range h.seals {
					h.seals[i] = newSeal()
					defer h.seals[i].free()
				}
				r.apply = h.apply
				r.Phase = func(string) {
					for i := 0; i < 40; i++ {
						k := r.pick()
						r.do([]int{opSet, opSetIfNotExists, opSetIfExists}[i%3], k, k[:r.rng.Intn(len(k)+1)], r.ret())
					}
					if r.s.Ordered() {
						h.iterate()
					} else {
						h.scan()
					}
					h.checkAll()
					r.verify(false)
				}
				p.play(r)
				r.mustClose()
				h.checkAll()
				r.mustOpen(false)
				r.verify(true)
				r.mustClose()
				sanReport(c)
				c.sample = fmt.Sprintf("%d inputs, %d outputs kept, %d overwritten, %d times compared", c.counters["inputs"], c.counters["outputs.held"], c.counters["outputs.scribbled"], c.counters["outputs.compared"])
				if c.counters["inputs"] >= 1000 && c.counters["outputs.held"] >= 100 && c.counters["outputs.scribbled"] >= 100 {
					c.Nontrivial()
				}
			}
			return append(planCases("real", bufPlans(tier, rng), run), planCases("san", bufPlans(tier, rng), run)...)
		},
	})
}
