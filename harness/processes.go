package main

import (
	"context"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"syscall"
	"time"
)

// Sessions of other processes: what the one before knew of the file is gone,
// and what differs from process to process (seeds, addresses) differs.

// sessionJob is a session for another process to do, and its outcome.
type sessionJob struct {
	Prop, Tier, Name string
	Seed             uint64

	Kind, Path, Val string
	Dist            int
	ID              uint64
	Create          bool
	Pool            [][]byte
	Items           [][2]string
	Shape           string
	Phase           string
	N               int

	Result Result
}

func (j *sessionJob) items(m *Model) {
	j.Items = j.Items[:0]
	for _, k := range m.live {
		j.Items = append(j.Items, [2]string{k, m.m[k]})
	}
}

func (j *sessionJob) model() *Model {
	m := NewModel()
	for _, i := range j.Items {
		m.Put(i[0], i[1])
	}
	return m
}

func (j *sessionJob) save(path string) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	if err := gob.NewEncoder(f).Encode(j); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

func loadSessionJob(path string) (*sessionJob, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	j := new(sessionJob)
	return j, gob.NewDecoder(f).Decode(j)
}

// elsewhere does a session in another process.
func (r *Runner) elsewhere(name string, n int) {
	c := r.c
	j := &sessionJob{Prop: c.Prop, Tier: c.Tier, Name: c.Name, Seed: c.Rng.U64(), Kind: r.s.Kind, Path: r.s.Path, Val: r.val, Dist: r.dist,
		ID: r.id + 1<<30, Create: r.rng.Chance(1, 2), Pool: r.pool, Shape: fmt.Sprint(r.s.Shape()), Phase: name, N: n}
	r.id += 1 << 31
	j.items(r.m)
	r.mustClose()
	file := c.Path("session")
	mustDo(j.save(file))
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	self, err := os.Executable()
	mustDo(err)
	out, err := exec.CommandContext(ctx, self, "session", file, c.Dir).CombinedOutput()
	if err != nil {
		if ctx.Err() != nil {
			panic(inconclusive("the other process takes too long"))
		}
		if e, ok := err.(*exec.ExitError); !ok || e.ExitCode() == 3 || killed(e) {
			panic(inconclusive(fmt.Sprintf("the other process: %v: %s", err, out)))
		}
		if len(out) > 2000 {
			out = out[:2000]
		}
		c.Failf("crash", "%s: a session in another process failed: %v: %s", r.s.Kind, err, out)
	}
	j, err = loadSessionJob(file)
	mustDo(err)
	mustDo(os.Remove(file))
	res := j.Result
	if res.Inconcl != "" {
		panic(inconclusive(res.Inconcl))
	}
	if res.Violation != "" {
		for _, op := range res.LastOps {
			c.Trace("elsewhere: " + op)
		}
		c.Failf(res.Violation, "in another process: %s\n%s", res.Detail, res.Stack)
	}
	for k, n := range res.Counters {
		c.Count(k, n)
	}
	for k, n := range res.Max {
		c.Max(k, n)
	}
	c.Observe(res.Sig)
	step()
	r.m = j.model()
	r.mustOpen(r.rng.Chance(1, 2))
	if is := fmt.Sprint(r.s.Shape()); is != j.Shape {
		c.Failf("stats", "%s: the stats differ after a session in another process: %v, before Close there %v", r.s.Kind, is, j.Shape)
	}
	r.verify(true)
	c.Count("processes", 1)
}

// doSession is the other process.
func doSession(file, scratch string) error {
	j, err := loadSessionJob(file)
	if err != nil {
		return err
	}
	limitFiles(fileMax)
	var m *Model
	cs := Case{Name: j.Name, Run: func(c *Ctx) {
		r := &Runner{c: c, s: &Store{Kind: j.Kind, Path: j.Path}, m: j.model(), val: j.Val, dist: j.Dist, id: j.ID, pool: j.Pool,
			rng: NewRng(c.Rng.U64()), noVerify: true}
		r.mustOpen(j.Create)
		if is := fmt.Sprint(r.s.Shape()); is != j.Shape {
			c.Failf("stats", "%s: the stats differ after reopening: %v, before %v", j.Kind, is, j.Shape)
		}
		r.verify(true)
		if r.s.Ordered() {
			r.beyond()
			r.ranges(6)
		}
		r.phase(j.Phase, j.N)
		j.Shape = fmt.Sprint(r.s.Shape())
		r.mustClose()
		m = r.m
	}}
	j.Result = runCase(j.Prop, j.Tier, j.Seed, 0, cs, scratch)
	if m != nil {
		j.items(m)
	}
	return j.save(file)
}

// sessionCommand is the command.
func sessionCommand(file, scratch string) int {
	if err := doSession(file, scratch); err != nil {
		json.NewEncoder(os.Stderr).Encode(err.Error())
		return 3
	}
	return 0
}

func processesCases(rng *Rng, n int, kinds ...string) []Case {
	var cs []Case
	for i := 0; i < n; i++ {
		p := randomPlan(rng, kinds, 600)
		if p.Pool > 1000 {
			p.Pool = 1000
		}
		if p.Vals == "huge" {
			p.Vals = "big"
		}
		cs = append(cs, Case{Name: fmt.Sprintf("real/processes#%d:%s", i, p), Variant: "real", Run: func(c *Ctx) {
			r := p.runner(c)
			r.noVerify = true
			names := []string{"grow", "mixed", "churn", "resize", "shrink"}
			for i := 0; i < 12; i++ {
				r.phase(names[r.rng.Intn(4)], r.rng.Range(1, 300))
				r.elsewhere(names[r.rng.Intn(5)], r.rng.Intn(200))
			}
			r.mustClose()
			if c.max["items"] >= 10 {
				c.Nontrivial()
			}
		}})
	}
	return cs
}

func killed(e *exec.ExitError) bool {
	w, ok := e.Sys().(syscall.WaitStatus)
	return ok && w.Signaled() && w.Signal() == syscall.SIGKILL
}
