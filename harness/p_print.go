package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
)

// C19: the dump is complete, in order, and tells of failures.

// readDump reads the entries of a dump: what follows the bullet of each line.
func readDump(c *Ctx, out string) (keys, values []string) {
	if out == "" {
		return
	}
	var awaited *string
	for _, line := range strings.Split(out, "\n") {
		i := strings.Index(line, "● ")
		if i < 0 {
			c.Failf("dump", "a line without entry: %s", short([]byte(line)))
		}
		if j := strings.IndexAny(line[:i], "\"="); j >= 0 {
			c.Failf("dump", "a line that starts in an odd way: %s", short([]byte(line)))
		}
		rest := line[i+len("● "):]
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			c.Failf("dump", "a line without key: %s", short([]byte(rest)))
		}
		k, _ := strconv.Unquote(q)
		rest = rest[len(q):]
		if rest == "" {
			// a separator, which is the first key to its right
			if awaited == nil {
				awaited = &k
			}
			c.Count("separators.printed", 1)
			continue
		}
		if rest[0] != '=' {
			c.Failf("dump", "a line that goes on in an odd way: %s", short([]byte(rest)))
		}
		v, err := strconv.Unquote(rest[1:])
		if err != nil {
			c.Failf("dump", "a line without value: %s", short([]byte(rest)))
		}
		awaited = nil
		keys, values = append(keys, k), append(values, v)
	}
	if awaited != nil {
		c.Failf("dump", "nothing follows the separator %s", short([]byte(*awaited)))
	}
	return
}

// failing accepts so many bytes. If it recovers, only the write that goes
// beyond fails.
type failing struct {
	b        bytes.Buffer
	limit    int
	err      error
	hits     int
	recovers bool
}

func (w *failing) Write(p []byte) (int, error) {
	step()
	if w.b.Len()+len(p) <= w.limit {
		return w.b.Write(p)
	}
	w.hits++
	if w.hits > 1 && w.recovers {
		return len(p), nil
	}
	n := w.limit - w.b.Len()
	w.b.Write(p[:n])
	return n, w.err
}

// nesting is a writer that reads from the tree when written to, and panics
// after some number of bytes.
type nesting struct {
	r     *Runner
	b     bytes.Buffer
	reads int
	limit int
	odds  int
	out   string
}

var errNested = errors.New("the writer panics")

func (w *nesting) Write(p []byte) (int, error) {
	step()
	if w.b.Len()+len(p) > w.limit {
		panic(errNested)
	}
	// it reads before it looks at what it is given
	if w.reads > 0 && w.r.rng.Chance(1, w.odds) {
		w.reads--
		q := w.r.share(w.r.c)
		if w.r.rng.Chance(1, 3) {
			var b bytes.Buffer
			err := w.r.s.bt.Fprint(&b)
			if err != nil || b.String() != w.out {
				w.r.c.Failf("dump-nested", "a dump made while another is written differs from it (%v): %s", err, diffAt(b.Bytes(), w.out))
			}
			w.r.c.Count("dumps.nested", 1)
		} else {
			q.readOnly(1)
			w.r.c.Count("reads.nested", 1)
		}
	}
	return w.b.Write(p)
}

// nested dumps the tree, which now gives out, to writers that read from it.
func (r *Runner) nested(out string) {
	c := r.c
	w := &nesting{r: r, out: out, reads: 3, limit: len(out), odds: 1 + r.m.Len()/4}
	if r.rng.Chance(1, 3) {
		w.limit = r.rng.Intn(len(out))
	}
	failed := func() (err interface{}) {
		defer func() {
			if p := recover(); p != nil {
				if p != errNested {
					panic(p)
				}
				err = p
			}
		}()
		if err := r.s.bt.Fprint(w); err != nil {
			return err
		}
		return nil
	}()
	if w.limit == len(out) && (failed != nil || w.b.String() != out) {
		c.Failf("dump-nested", "a dump to a writer that reads from the tree differs (%v): %s", failed, diffAt(w.b.Bytes(), out))
	}
	if w.limit < len(out) && (failed == nil || !strings.HasPrefix(out, w.b.String())) {
		c.Failf("dump-nested", "a dump to a writer that reads from the tree and panics after %d bytes ended with %v: %s", w.limit, failed, diffAt(w.b.Bytes(), out))
	}
	if failed != nil {
		c.Count("dumps.panicked", 1)
		var b bytes.Buffer
		if err := r.s.bt.Fprint(&b); err != nil || b.String() != out {
			c.Failf("dump-nested", "after a writer panicked the dump differs (%v): %s", err, diffAt(b.Bytes(), out))
		}
	}
}

func (r *Runner) dump(faults int) {
	c := r.c
	shape := r.s.Shape()
	var b bytes.Buffer
	if err := r.s.bt.Fprint(&b); err != nil {
		c.Failf("dump-error", "dumping failed: %v", err)
	}
	out := b.String()
	keys, values := readDump(c, out)
	want := r.m.Sorted()
	for i, k := range keys {
		step()
		if i >= len(want) {
			c.Failf("dump", "the dump goes on after all %d records, with %s", len(want), short([]byte(k)))
		}
		if k != want[i] {
			c.Failf("dump", "entry %d of %d of the dump has a wrong key: %s", i, len(want), diffAt([]byte(k), want[i]))
		}
		if values[i] != r.m.m[k] {
			c.Failf("dump", "entry %d of %d of the dump, of key %s, has a wrong value: %s", i, len(want), short([]byte(k)), diffAt([]byte(values[i]), r.m.m[k]))
		}
	}
	if len(keys) < len(want) {
		c.Failf("dump", "the dump ends after %d of %d records", len(keys), len(want))
	}
	c.Count("dumps", 1)
	c.Count("records.printed", int64(len(keys)))
	if len(out) <= 10*faults {
		faults = len(out) // each and every
		c.Count("dumps.failed.everywhere", 1)
	}
	for i := 0; i < faults; i++ {
		limit := r.rng.Intn(len(out))
		switch {
		case faults == len(out):
			limit = i
		case i == 0:
			limit = 0
		case i < 4:
			limit = len(out) - i
		}
		w := &failing{limit: limit, err: fmt.Errorf("no more than %d bytes", limit), recovers: r.rng.Chance(1, 2)}
		if i%4 == 3 {
			w.err = io.ErrShortWrite
		}
		err := r.s.bt.Fprint(w)
		if !errors.Is(err, w.err) {
			c.Failf("dump-error", "the writer failed after %d of %d bytes with %q; dumping told %v", limit, len(out), w.err, err)
		}
		if !strings.HasPrefix(out, w.b.String()) {
			c.Failf("dump-error", "what was written until the failure isn't how the dump starts: %s", diffAt(w.b.Bytes(), out[:w.b.Len()]))
		}
		c.Count("dumps.failed", 1)
	}
	if len(out) > 0 && len(out) < 3000000 && (faults > 2 || r.rng.Chance(1, 4)) {
		r.nested(out)
	}
	if sh := r.s.Shape(); sh != shape {
		c.Failf("dump", "dumping changed the stats: %v, before %v", sh, shape)
	}
}

func init() {
	register("C19", Property{
		Level:   "fault_enumeration",
		Rule:    "A case is a history on a tree; at times and after each phase the tree is dumped, the dump is parsed and compared with a reference map, record by record, and dumped again to writers that fail after some number of bytes, for good or but once, at the start, within, and at the end of the dump, and to writers that read from the tree, dumps included, while they are written to, some of which then panic. Non-trivial: 20 dumps and failures each and 100 records printed. Distinct: by a hash of the contents and shapes.",
		MustSee: []string{"dumps", "dumps.failed", "dumps.failed.everywhere", "dumps.nested", "reads.nested", "dumps.panicked", "separators.printed", "leaf.splits", "leaf.merges", "height.ups", "height.downs"},
		Cases: func(tier string, rng *Rng) []Case {
			var ps []Plan
			for _, p := range orderedPlans("bpt", false) {
				if p.Cost < 2 || thorough(tier) {
					ps = append(ps, p)
				}
			}
			ps = append(ps,
				Plan{Kind: "bpt", Keys: "max256", Vals: "empty", Pool: 30000, Phases: steps("fill shrink:20000"), Cost: 2},
				Plan{Kind: "bpt", Keys: "tiny", Vals: "small", Pool: 6, Phases: steps("churn:300 drain churn:100")},
				Plan{Kind: "bpt", Keys: "prefix", Vals: "bound", Pool: 70, Phases: steps("churn:1000 drain churn:300")})
			ps = append(ps, huntPlans(rng, pickN(tier, 8, 100))...)
			ps = append(ps, farPlans(0, "bpt")...)
			ps = append(ps, tallPlans(pickN(tier, 1, 4), false, "bpt")...)
			ps = append(ps, randomPlans(rng, pickN(tier, 120, 1500), 4000, "bpt")...)
			return planCases("real", ps, func(c *Ctx, p Plan) {
				r := p.runner(c)
				r.noVerify = true
				r.After = func(int, []byte, bool) {
					if r.rng.Chance(1, 20+r.m.Len()+r.m.payload/200) {
						r.dump(2)
					}
				}
				r.Phase = func(string) {
					n := 40
					if r.m.payload > 100000 {
						n = 4
					}
					if r.m.payload > 1000000 {
						n = 1
					}
					r.dump(n)
				}
				r.dump(1)
				r.hunted = func() {
					if r.rng.Chance(1, 10) {
						r.dump(1)
					}
				}
				p.play(r)
				r.verify(true)
				r.mustClose()
				c.sample = fmt.Sprintf("%d dumps of %d records, %d failed on purpose", c.counters["dumps"], c.counters["records.printed"], c.counters["dumps.failed"])
				if c.counters["dumps"] >= 20 && c.counters["dumps.failed"] >= 20 && c.counters["records.printed"] >= 100 {
					c.Nontrivial()
				}
			})
		},
	})
}
