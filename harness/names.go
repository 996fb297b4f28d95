package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// A file is what was opened, however it is called then and whatever becomes of
// its name and of the working directory until it is closed.

var oddNames = []string{
	"plain", "with space", "-dash", "~", "$HOME", "%s%d", "dot.", "..dots", ".hidden", "new\nline", "\xff\xfe", "ä☃", "*?[", "a.tmp", "a~",
	strings.Repeat("n", 255),
}

func namesCase(c *Ctx, p Plan) {
	dir, other := c.Path("one"), c.Path("two")
	mustDo(os.Mkdir(dir, 0o777))
	mustDo(os.Mkdir(other, 0o777))
	home, err := os.Getwd()
	mustDo(err)
	defer os.Chdir(home)
	files := func() string {
		var b strings.Builder
		filepath.Walk(c.Dir, func(path string, i os.FileInfo, err error) error {
			if err == nil {
				fmt.Fprintln(&b, path, i.Mode())
			}
			return nil
		})
		return b.String()
	}
	r := closedRunner(c, p.Kind, p.Keys, p.Vals, p.Pool)
	r.dist, r.noVerify = p.Dist, true
	name := oddNames[r.rng.Intn(len(oddNames))]
	file := filepath.Join(dir, name)
	// another one, of the same name elsewhere
	o := closedRunner(c, p.Kind, p.Keys, p.Vals, p.Pool)
	o.pool, o.dist, o.noVerify, o.id, o.s.Path = r.pool, p.Dist, true, 1<<40, filepath.Join(other, name)
	o.mustOpen(true)
	o.phase("mixed", 100)
	r.s.Path = file
	r.mustOpen(true)
	r.mustClose()
	mustDo(os.Chmod(file, 0o640))
	i := p.Phases[0].N
	for ; i > 0; i-- {
		before, err := os.Stat(file)
		mustDo(err)
		how := r.rng.Intn(6)
		after := file
		switch how {
		case 0:
			// a relative name, and another working directory by the time of Close
			mustDo(os.Chdir(dir))
			if r.s.Path = name; r.rng.Chance(1, 2) {
				r.s.Path = "./../one/" + name
			}
		case 1:
			r.s.Path = filepath.Join(other, "link")
			mustDo(os.Symlink(file, r.s.Path))
		case 2:
			r.s.Path = filepath.Join(other, "hard")
			mustDo(os.Link(file, r.s.Path))
		case 3:
			// renamed while open
			name2 := oddNames[r.rng.Intn(len(oddNames))]
			r.s.Path, after = file, filepath.Join(dir, name2)
		case 4:
			// the directory is renamed while the file is open
			r.s.Path = file
		case 5:
			r.s.Path = dir + "//./" + name
		}
		c.Trace(fmt.Sprint("-- session of way ", how))
		r.mustOpen(r.rng.Chance(1, 2))
		r.verify(true)
		was := files()
		r.phase([]string{"mixed", "churn", "resize", "grow"}[r.rng.Intn(4)], r.rng.Range(1, 150))
		shape := r.s.Shape()
		switch how {
		case 0:
			mustDo(os.Chdir([]string{other, "/"}[r.rng.Intn(2)]))
		case 3:
			if after != file {
				mustDo(os.Rename(file, after))
			}
			was = files()
		case 4:
			mustDo(os.Rename(dir, c.Path("away")))
			was = files()
		}
		r.mustClose()
		if is := files(); is != was {
			c.Failf("files", "%s: after Close the files (way %d) are\n%s, and before it\n%s", p.Kind, how, is, was)
		}
		switch how {
		case 0:
			mustDo(os.Chdir(home))
		case 1, 2:
			mustDo(os.Remove(r.s.Path))
		case 4:
			mustDo(os.Rename(c.Path("away"), dir))
		}
		file = after
		name = filepath.Base(file)
		if now, err := os.Stat(file); err != nil || !os.SameFile(before, now) {
			c.Failf("files", "%s: after Close (way %d) the file that was opened is another", p.Kind, how)
		}
		r.s.Path = file
		r.mustOpen(false)
		if now := r.s.Shape(); now != shape {
			c.Failf("stats", "%s: the stats differ after reopening (way %d): %v, before %v", p.Kind, how, now, shape)
		}
		r.verify(true)
		r.mustClose()
		if r.rng.Chance(1, 2) {
			o.phase("mixed", 30)
			o.verify(true)
		}
		if r.rng.Chance(1, 4) {
			o.reopen()
			o.verify(true)
		}
		c.Count("named", 1)
	}
	o.reopen()
	o.verify(true)
	o.mustClose()
	if c.max["items"] >= 10 {
		c.Nontrivial()
	}
}

func namesCases(rng *Rng, n int, kinds ...string) []Case {
	var cs []Case
	for i := 0; i < n; i++ {
		p := randomPlan(rng, kinds, 600)
		if p.Pool > 1000 {
			p.Pool = 1000
		}
		if p.Vals == "huge" {
			p.Vals = "big"
		}
		p.Phases = steps("mixed:25")
		cs = append(cs, Case{Name: fmt.Sprintf("real/names#%d:%s", i, p), Variant: "real", Run: func(c *Ctx) { namesCase(c, p) }})
	}
	return cs
}

// lockstep has all do the same things with the same keys and other values, one
// after the other.
func lockstep(rs []*Runner) {
	for i, r := range rs {
		r.pool, r.id = rs[0].pool, uint64(i)<<32
		if i > 0 {
			*r.rng = *rs[0].rng
		}
	}
	for round := 0; round < 3; round++ {
		for _, r := range rs {
			r.phase([]string{"grow", "mixed"}[round&1], 7)
		}
		for _, r := range rs {
			r.verify(true)
		}
	}
}

// crowdOfFiles has many files open at a time.
func crowdOfFiles(kinds []string, n int) func(c *Ctx) {
	return func(c *Ctx) {
		rng := NewRng(c.Rng.U64())
		var l syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l) == nil && l.Cur < uint64(n)+100 {
			n = int(l.Cur) / 2
		}
		var rs []*Runner
		for i := 0; i < n; i++ {
			r := closedRunner(c, kinds[rng.Intn(len(kinds))], "rand8", "bound", 40)
			r.s.Path, r.noVerify = c.Path(fmt.Sprint("crowd", i)), true
			r.mustOpen(true)
			rs = append(rs, r)
		}
		lockstep(rs)
		for round := 0; round < 3; round++ {
			for i := 0; i < n; i++ {
				r := rs[rng.Intn(n)]
				r.phase([]string{"mixed", "grow", "shrink"}[rng.Intn(3)], rng.Range(1, 8))
				if rng.Chance(1, 3) {
					r.reopenChecked()
				}
			}
			for _, r := range rs {
				r.verify(true)
			}
		}
		shapes := make([]Shape, n)
		for i, r := range rs {
			shapes[i] = r.s.Shape()
			r.mustClose()
		}
		for i := 0; i < n; i++ {
			j := i + rng.Intn(n-i)
			rs[i], rs[j], shapes[i], shapes[j] = rs[j], rs[i], shapes[j], shapes[i]
			r := rs[i]
			r.mustOpen(rng.Chance(1, 2))
			if is := r.s.Shape(); is != shapes[i] {
				c.Failf("stats", "%s: the stats differ after reopening: %v, before %v", r.s.Kind, is, shapes[i])
			}
			r.verify(true)
			c.Count("crowd", 1)
		}
		for _, r := range rs {
			r.mustClose()
		}
		c.Nontrivial()
	}
}

func crowdCases(n int, kinds ...string) []Case {
	var cs []Case
	for i := 0; i < n; i++ {
		cs = append(cs, Case{Name: fmt.Sprintf("real/crowd#%d", i), Variant: "real", Cost: 2, Run: crowdOfFiles(kinds, 300+300*(i&1))})
	}
	return cs
}
