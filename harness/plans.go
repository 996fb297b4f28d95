package main

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync/atomic"

	"github.com/roy2220/fsm"
)

// Plan is a workload: a store of some kind, keys, values and phases.
type Plan struct {
	Kind, Keys, Vals string
	Pool             int
	Dist             int
	Phases           []Step
	Cost             int
	Far              []int // what lies before it in the storage: log2 of sizes
	Tall             int   // a tree to begin with, of pages filled so much (percent, on average)
}

// Step is a phase and how many operations it is about.
type Step struct {
	Name string
	N    int
}

func steps(spec string) []Step {
	var out []Step
	for _, f := range strings.Fields(spec) {
		var s Step
		if i := strings.IndexByte(f, ':'); i >= 0 {
			s.Name = f[:i]
			fmt.Sscanf(f[i+1:], "%d", &s.N)
		} else {
			s.Name, s.N = f, 1<<30
		}
		out = append(out, s)
	}
	return out
}

func (p Plan) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s/%s/%s/%d", p.Kind, p.Keys, p.Vals, p.Pool)
	if p.Dist > 0 {
		fmt.Fprintf(&b, "/d%d", p.Dist)
	}
	if p.Far != nil {
		fmt.Fprintf(&b, "/far%v", p.Far)
	}
	if p.Tall > 0 {
		fmt.Fprintf(&b, "/tall%d", p.Tall)
	}
	for _, s := range p.Phases {
		if s.N == 1<<30 {
			fmt.Fprintf(&b, " %s", s.Name)
		} else {
			fmt.Fprintf(&b, " %s:%d", s.Name, s.N)
		}
	}
	return b.String()
}

func (p Plan) runner(c *Ctx) *Runner {
	if p.Far != nil {
		makeFar(c, p.Far)
	}
	r := closedRunner(c, p.Kind, p.Keys, p.Vals, p.Pool)
	r.dist = p.Dist
	if p.Tall > 0 {
		r.makeTall(p.Tall)
	}
	r.mustOpen(true)
	return r
}

// makeTall makes a tree of many levels with few records, of half of the pool,
// in the storage.
func (r *Runner) makeTall(percent int) {
	for i, k := range r.pool {
		if i&1 == 0 {
			r.m.Put(string(k), string(r.newValue(k)))
		}
	}
	keys := r.m.Sorted()
	s := &Store{Kind: "fbpt", Path: r.s.Path}
	if err := s.Open(true); err != nil {
		panic(inconclusive(err.Error()))
	}
	s.fbt.Build(len(keys), func(i int) ([]byte, []byte) {
		v, _ := r.m.Get(keys[i])
		return []byte(keys[i]), []byte(v)
	}, func(n int) float64 {
		if f := float64(r.rng.Intn(2*percent)) / 100; f < 1 && n > 60 {
			return f
		}
		return 0
	})
	r.c.Max("tall.height", int64(s.fbt.Height()))
	if err := s.Close(); err != nil {
		panic(inconclusive(err.Error()))
	}
	r.c.Count("tall", 1)
	step()
}

// tallPlans are workloads on trees of more levels than one gets by setting as
// many keys.
func tallPlans(n int, hunted bool, kinds ...string) []Plan {
	var ps []Plan
	for i := 0; i < n; i++ {
		p := []Plan{
			{Keys: "max256", Vals: "max128", Pool: 75000, Phases: steps("mixed:3000 shrink:9000 edge:500 grow:6000 drain fill:300")},
			{Keys: "long", Vals: "max128", Pool: 75000, Phases: steps("resize:2000 shrinkmid:12000 edge:500 draindesc")},
			{Keys: "max256", Vals: "bound", Pool: 80000, Phases: steps("shrinkdesc:2000 mixed:1000 thin:12000 resize:4000 drainasc fill:300")},
		}[i%3]
		if hunted {
			p = []Plan{
				{Keys: "max256", Vals: "max128", Pool: 75000, Phases: steps("press:30 shrink:9000 press:30 grow:3000 drain")},
				{Keys: "long", Vals: "max128", Pool: 75000, Phases: steps("hunt:20 thin:12000 press:30 draindesc")},
			}[i%2]
		}
		p.Kind, p.Cost, p.Tall = kinds[i%len(kinds)], 4, 10
		ps = append(ps, p)
	}
	return ps
}

// wideHash has more than 2^20 slots in more than 256 directories.
func wideHash(kind string) Plan {
	return Plan{Kind: kind, Keys: "rand8", Vals: "empty", Pool: 1750000, Cost: 50, Phases: steps("fill shrink:60000 grow:50000 drain")}
}

// wideTree has more than 2^16 leafs.
func wideTree(kind string) Plan {
	return Plan{Kind: kind, Keys: "max256", Vals: "max128", Pool: 1100000, Tall: 8, Cost: 50, Phases: steps("mixed:5000 shrink:20000 grow:10000")}
}

// play runs the phases.
func (p Plan) play(r *Runner) {
	for _, st := range p.Phases {
		r.phase(st.Name, st.N)
	}
}

// randomPlan makes a plan of about ops operations.
func randomPlan(rng *Rng, kinds []string, ops int) Plan {
	var p Plan
	p.Kind = kinds[rng.Intn(len(kinds))]
	p.Keys = keyClasses[rng.Intn(len(keyClasses))]
	p.Vals = valClasses[rng.Intn(len(valClasses))]
	p.Dist = rng.Pick(0, 0, 0, 1, 2)
	pools := []int{12, 60, 250, 1000, 4000, 12000}
	p.Pool = pools[rng.Intn(len(pools))]
	if p.Keys == "huge" {
		p.Pool = rng.Pick(8, 40)
	}
	if p.Keys == "deep" && p.Pool > 1000 {
		p.Pool = 1000
	}
	if p.Keys == "chain" {
		p.Pool = rng.Pick(100, 300, 700)
	}
	if p.Keys == "skew" && p.Pool > 4000 {
		p.Pool = 4000
	}
	if p.Vals == "huge" && p.Pool > 60 {
		p.Pool = 60
	}
	if p.Vals == "big" && p.Pool > 4000 {
		p.Pool = 4000
	}
	if p.Keys == "huge" || p.Vals == "huge" {
		ops /= 20
	} else if p.Vals == "big" {
		ops /= 4
	}
	names := []string{"grow", "churn", "mixed", "resize", "empty", "max", "shrink", "shrinkasc", "shrinkdesc", "shrinkmid", "thin", "flap", "edge", "noop",
		"fillasc", "filldesc", "fill", "fillinterleave"}
	n := rng.Range(4, 8)
	p.Phases = append(p.Phases, Step{[]string{"grow", "fill", "fillasc", "filldesc", "fillinterleave"}[rng.Intn(5)], p.Pool})
	for i := 0; i < n; i++ {
		k := ops / n
		name := names[rng.Intn(len(names))]
		if strings.HasPrefix(name, "shrink") || name == "thin" {
			k = p.Pool * rng.Range(1, 3) / 4
			if k > 2*ops/n {
				k = 2 * ops / n
			}
			p.Phases = append(p.Phases, Step{name, k})
			name = names[rng.Intn(6)]
			k = ops / n / 2
		}
		p.Phases = append(p.Phases, Step{name, k})
	}
	p.Phases = append(p.Phases, Step{[]string{"drain", "drainasc", "draindesc"}[rng.Intn(3)], 1 << 30})
	if rng.Chance(1, 2) {
		p.Phases = append(p.Phases, Step{"grow", p.Pool / 2})
	}
	return p
}

// orderedPlans are workloads aimed at the B+ tree.
func orderedPlans(kind string, full bool) []Plan {
	ps := []Plan{
		{Keys: "tiny", Vals: "mixed", Pool: 400, Phases: steps("churn:4000 drain grow:800 drainasc fill draindesc churn:3000")},
		{Keys: "long", Vals: "bound", Pool: 9000, Phases: steps("fill resize:6000 shrink:4500 churn:6000 thin:2000 drain"), Cost: 1},
		{Keys: "max256", Vals: "max128", Pool: 9000, Phases: steps("fillasc empty max shrinkmid:3000 grow:5000 drainasc"), Cost: 1},
		{Keys: "max256", Vals: "max128", Pool: 9000, Phases: steps("filldesc empty shrinkmid:2000 max grow:5000 draindesc"), Cost: 1},
		{Keys: "bound", Vals: "bound", Pool: 9000, Phases: steps("grow:12000 mixed:12000 resize:9000 thin:1500 mixed:6000 shrink:4000 drain"), Cost: 1},
		{Keys: "prefix", Vals: "bound", Pool: 4000, Phases: steps("fillinterleave mixed:9000 shrinkasc:1500 grow:3000 drain")},
		{Keys: "chain", Vals: "page", Pool: 900, Phases: steps("fill mixed:6000 shrinkdesc:300 churn:4000 drainasc fillinterleave drain")},
		{Keys: "num", Vals: "page", Pool: 20000, Phases: steps("fillasc thin:10000 fill shrinkmid:8000 edge:6000 drainasc"), Cost: 1},
		{Keys: "num", Vals: "empty", Pool: 20000, Phases: steps("filldesc max empty shrinkmid:8000 edge:6000 draindesc"), Cost: 1},
		{Keys: "sentinel", Vals: "mixed", Pool: 1500, Phases: steps("churn:6000 drain grow:3000 shrinkmid:500 mixed:4000")},
		{Keys: "binary", Vals: "page", Pool: 5000, Phases: steps("churn:12000 shrink:2000 mixed:8000 drain")},
		{Keys: "huge", Vals: "bound", Pool: 60, Phases: steps("fill mixed:500 drain grow:100")},
		{Keys: "mixed", Vals: "mixed", Pool: 12000, Dist: 1, Phases: steps("grow:16000 mixed:16000 resize:8000 shrinkasc:2000 mixed:8000 flap:3000 drain"), Cost: 2},
		{Keys: "words", Vals: "huge", Pool: 60, Phases: steps("fill mixed:500 resize:300 drain")},
		{Keys: "ext", Vals: "max128", Pool: 20000, Phases: steps("fill thin:5000 mixed:20000 shrink:5000 churn:20000 shrinkmid:4000 churn:8000 drain"), Cost: 2},
		{Keys: "ext", Vals: "empty", Pool: 30000, Phases: steps("grow:30000 churn:40000 max empty shrink:9000 churn:10000 drainasc"), Cost: 2},
		{Keys: "bands", Vals: "max128", Pool: 14000, Phases: steps("fill thin:4000 mixed:9000 shrinkmid:3000 grow:6000 drain"), Cost: 1},
		{Keys: "bands", Vals: "max128", Pool: 14000, Phases: steps("fillasc shrinkdesc:6000 empty grow:9000 drainasc"), Cost: 1},
		{Keys: "bands", Vals: "small", Pool: 25000, Phases: steps("fillinterleave thin:9000 grow:9000 draindesc"), Cost: 2},
		{Keys: "long", Vals: "max128", Pool: 40000, Phases: steps("fill thin:12000 mixed:20000 shrinkmid:9000 drain"), Cost: 6},
		{Keys: "long", Vals: "empty", Pool: 30000, Phases: steps("fillasc max empty drainasc"), Cost: 5},
		{Keys: "max256", Vals: "max128", Pool: 40000, Phases: steps("fillinterleave empty max draindesc"), Cost: 5},
		{Keys: "deep", Vals: "page", Pool: 800, Phases: steps("fill mixed:3000 shrink:500 grow:700 drain")},
		{Keys: "words", Vals: "vast", Pool: 5, Phases: steps("fill mixed:20 drain")},
		{Keys: "vast", Vals: "small", Pool: 5, Phases: steps("fill churn:20 drain")},
		{Keys: "ext", Vals: "small", Pool: 900, Phases: steps("fill gap:256 gap:255 gap:128 gap:65536 drain"), Cost: 1},
		{Keys: "long", Vals: "bound", Pool: 300, Phases: steps("fill gap:256 gap:1024 gap:65536")},
		// more than 16 bits of records
		{Keys: "max256", Vals: "max128", Pool: 80000, Phases: steps("fillasc edge:2000 shrinkmid:50000 drain"), Cost: 8},
	}
	if full {
		ps = append(ps,
			Plan{Keys: "long", Vals: "max128", Pool: 250000, Phases: steps("fill thin:60000 mixed:60000 shrinkmid:30000 drain"), Cost: 40},
			Plan{Keys: "max256", Vals: "max128", Pool: 200000, Phases: steps("fillasc empty max thin:50000 drain"), Cost: 40},
			Plan{Keys: "rand8", Vals: "page", Pool: 500000, Phases: steps("fill mixed:200000 drain"), Cost: 40},
			// six levels
			Plan{Keys: "max256", Vals: "max128", Pool: 920000, Tall: 8, Phases: steps("mixed:20000 shrink:100000 grow:50000 drain"), Cost: 60},
			Plan{Keys: "mixed", Vals: "mixed", Pool: 150000, Phases: steps("grow:300000 mixed:300000 shrink:80000 resize:100000 drain"), Cost: 40},
		)
	}
	for i := range ps {
		ps[i].Kind = kind
	}
	return ps
}

// huntPlans bring pages close to the loads at which they are shifted, merged
// or split; see hunter.
func huntPlans(rng *Rng, n int) []Plan {
	var ps []Plan
	for i := 0; i < n; i++ {
		p := Plan{Kind: "bpt", Keys: []string{"bands", "ext", "max256", "bound", "rand8", "prefix"}[rng.Pick(0, 0, 1, 1, 2, 2, 3, 4, 5)], Vals: []string{"page", "max128", "small", "bound"}[rng.Intn(4)],
			Pool: rng.Pick(1500, 3000, 6000, 12000), Cost: 1}
		if p.Keys == "prefix" && p.Pool > 3000 {
			p.Pool = 3000
		}
		rounds := 500000 / (p.Pool + 500)
		p.Phases = append(steps([]string{"fill", "fillasc", "filldesc", "fillinterleave"}[rng.Intn(4)]), Step{"hunt", rounds}, Step{[]string{"thin", "shrinkmid", "grow", "shrink"}[rng.Intn(4)], p.Pool / 3}, Step{"hunt", rounds})
		if i%6 == 5 {
			// four levels, with few records in them
			p.Keys, p.Vals, p.Pool = []string{"max256", "long"}[rng.Intn(2)], "max128", 30000
			p.Phases = append(steps([]string{"fill shrink:16000", "filldesc shrink:14000", "fillasc thin:14000"}[rng.Intn(3)]), Step{"press", 140}, Step{"grow", 9000}, Step{"press", 140}, Step{"hunt", 20})
			p.Cost = 2
		}
		if i%6 == 1 {
			// a root with a few children, and addresses of many bits
			p.Kind, p.Keys, p.Vals, p.Far, p.Pool = "bpt", "max256", "max128", []int{32}, rng.Range(250, 700)
			p.Phases = append(steps("fill"), Step{"hunt", 400}, Step{"shrink", p.Pool / 4}, Step{"hunt", 400}, Step{"press", 100})
		}
		ps = append(ps, p)
	}
	return ps
}

// makeFar makes a file storage with large spaces that nothing is written to,
// so that what comes to the storage afterwards has addresses of many bits.
func makeFar(c *Ctx, far []int) {
	limitFiles(farFileMax)
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(c.Path("store"), true); err != nil {
		panic(inconclusive(err.Error()))
	}
	for _, n := range far {
		addr, _ := fs.AllocateAlignedSpace(1 << uint(n))
		c.Max("far.begin", addr+1<<uint(n))
	}
	if err := fs.Close(); err != nil {
		panic(inconclusive(err.Error()))
	}
	c.Count("far", 1)
}

// Pages and spaces come to lie on both sides of 2 GiB, of 4 GiB, or beyond.
var farBegins = [][]int{
	{30, 29, 28, 27, 26, 25, 24, 23, 22, 21},
	{31, 30, 29, 28, 27, 26, 25, 24, 23, 22},
	{32},
	{32, 32, 32, 31, 31, 31},
}

// farPlans are workloads in files of many gigabytes, most of which are never
// written.
func farPlans(n int, kinds ...string) []Plan {
	var ps []Plan
	for i, far := range farBegins {
		for j, k := range kinds {
			var p Plan
			if i += j; k == "od" || k == "bpt" {
				p = []Plan{
					{Keys: "max256", Vals: "max128", Pool: 4000, Phases: steps("fill mixed:4000 shrink:2500 grow:2000 drain")},
					{Keys: "ext", Vals: "bound", Pool: 3000, Phases: steps("fillasc thin:2000 mixed:3000 drain grow:300")},
					{Keys: "long", Vals: "big", Pool: 1200, Phases: steps("fill mixed:2000 shrinkmid:600 grow:1000 drain")},
					{Keys: "bands", Vals: "page", Pool: 3000, Phases: steps("filldesc mixed:4000 shrink:2500 grow:2000 drain")},
				}[(i+n)&3]
			} else {
				p = []Plan{
					{Keys: "rand8", Vals: "big", Pool: 1500, Phases: steps("fill mixed:3000 shrink:1200 grow:1000 drain")},
					{Keys: "long", Vals: "page", Pool: 3000, Phases: steps("fill resize:3000 shrink:2500 mixed:2000 drain")},
					{Keys: "collide", Vals: "bound", Pool: 1500, Phases: steps("fill mixed:3000 shrink:1000 grow:1000 drain")},
					{Keys: "ext", Vals: "mixed", Pool: 9000, Phases: steps("fill mixed:3000 shrink:7000 grow:2000 drain")},
				}[(i+n)&3]
			}
			p.Kind, p.Far = k, far
			ps = append(ps, p)
		}
	}
	return ps
}

// hashPlans are workloads aimed at the hash map.
func hashPlans(kind string, full bool) []Plan {
	ps := []Plan{
		{Keys: "tiny", Vals: "mixed", Pool: 400, Phases: steps("churn:4000 drain grow:800 drainasc fill draindesc churn:3000")},
		{Keys: "skew", Vals: "page", Pool: 2500, Phases: steps("fill mixed:8000 shrink:1500 grow:3000 drain")},
		{Keys: "collide", Vals: "bound", Pool: 1500, Phases: steps("fill mixed:8000 shrink:900 grow:3000 drain")},
		{Keys: "collide", Vals: "small", Pool: 60, Phases: steps("churn:5000 drain churn:2000")},
		{Keys: "short24", Vals: "small", Pool: 9000, Phases: steps("fill resize:6000 shrink:6000 mixed:9000 drain")},
		{Keys: "bound", Vals: "bound", Pool: 9000, Phases: steps("grow:12000 mixed:12000 resize:9000 thin:1500 mixed:6000 shrink:4000 drain")},
		{Keys: "rand8", Vals: "empty", Pool: 20000, Phases: steps("fill resize:4000 shrink:14000 edge:6000 drain"), Cost: 1},
		{Keys: "num", Vals: "page", Pool: 20000, Phases: steps("fillasc thin:10000 fill shrinkmid:8000 edge:6000 drainasc"), Cost: 1},
		{Keys: "chain", Vals: "page", Pool: 600, Phases: steps("fill mixed:6000 shrinkdesc:300 churn:4000 drainasc")},
		{Keys: "huge", Vals: "bound", Pool: 60, Phases: steps("fill mixed:500 drain grow:100")},
		{Keys: "words", Vals: "huge", Pool: 60, Phases: steps("fill mixed:500 resize:300 drain")},
		{Keys: "mixed", Vals: "mixed", Pool: 12000, Dist: 1, Phases: steps("grow:16000 mixed:16000 resize:8000 shrink:3000 mixed:8000 flap:3000 drain"), Cost: 1},
		{Keys: "sentinel", Vals: "mixed", Pool: 1500, Phases: steps("churn:6000 drain grow:3000 shrinkmid:500 mixed:4000")},
		{Keys: "words", Vals: "small", Pool: 900, Phases: steps("fill gap:256 gap:255 gap:128 gap:65536 drain"), Cost: 1},
		{Keys: "long", Vals: "bound", Pool: 300, Phases: steps("fill gap:256 gap:1024 gap:65536")},
		// past one, eight and sixteen slot directories and back
		{Keys: "rand8", Vals: "small", Pool: 14500, Phases: steps("fill edge:4000 shrink:12000 grow:9000 drain"), Cost: 1},
		{Keys: "short24", Vals: "small", Pool: 56000, Phases: steps("fill shrink:45000 grow:20000 drain"), Cost: 3},
		{Keys: "rand8", Vals: "empty", Pool: 112000, Phases: steps("fill shrink:90000 edge:4000 drain"), Cost: 5},
		{Keys: "deep", Vals: "page", Pool: 800, Phases: steps("fill mixed:3000 shrink:500 grow:700 drain")},
		{Keys: "words", Vals: "vast", Pool: 5, Phases: steps("fill mixed:20 drain")},
		{Keys: "vast", Vals: "small", Pool: 5, Phases: steps("fill churn:20 drain")},
	}
	if full {
		ps = append(ps,
			Plan{Keys: "rand8", Vals: "small", Pool: 450000, Phases: steps("fill shrink:300000 mixed:200000 drain"), Cost: 30},
			Plan{Keys: "short24", Vals: "page", Pool: 220000, Phases: steps("fill mixed:300000 shrink:150000 grow:200000 drain"), Cost: 30},
			Plan{Keys: "mixed", Vals: "mixed", Pool: 150000, Phases: steps("grow:300000 mixed:300000 shrink:80000 resize:100000 drain"), Cost: 30},
			Plan{Keys: "skew", Vals: "bound", Pool: 40000, Phases: steps("fill mixed:60000 shrink:25000 drain"), Cost: 30},
		)
	}
	for i := range ps {
		ps[i].Kind = kind
	}
	return ps
}

// planCases makes cases of plans; dup numbers tell equal plans apart.
func planCases(variant string, ps []Plan, run func(c *Ctx, p Plan)) []Case {
	var cs []Case
	for i, p := range ps {
		p := p
		if variant == "san" {
			p.Far = nil
		}
		cs = append(cs, Case{Name: fmt.Sprintf("%s#%d:%s", variant, i, p), Variant: variant, Cost: p.Cost, Run: func(c *Ctx) {
			if p.Pool >= 500000 {
				// the pool and the model alone take a good part of it
				atomic.StoreInt64(&memoryLimit, wideMemoryMax)
				debug.SetGCPercent(50)
				defer debug.FreeOSMemory()
				defer debug.SetGCPercent(100)
			}
			run(c, p)
		}})
	}
	return cs
}

func randomPlans(rng *Rng, n int, ops int, kinds ...string) []Plan {
	var ps []Plan
	for i := 0; i < n; i++ {
		ps = append(ps, randomPlan(rng, kinds, ops))
	}
	return ps
}
