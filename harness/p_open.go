package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
)

// C16: opening and closing tell the truth, and leave nothing behind.

type closer interface{ Close() error }

// openAs opens a dictionary of a kind; got tells whether one was returned.
func openAs(kind, path string, create bool) (d closer, got bool, err error) {
	if kind == "od" {
		od, err := plainkv.OpenOrderedDict(path, create)
		return od, od != nil, err
	}
	dd, err := plainkv.OpenDict(path, create)
	return dd, dd != nil, err
}

// held counts the descriptors and mappings of files under a directory.
func held(dir string) (fds, maps int) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir) {
			fds++
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	return fds, bytes.Count(b, []byte(dir))
}

func (c *Ctx) nothingHeld(after string) {
	if fds, maps := held(c.Dir); fds != 0 || maps != 0 {
		c.Failf("leak", "%d descriptors and %d mappings are left after %s", fds, maps, after)
	}
	// goroutines may take a moment to end
	n := runtime.NumGoroutine()
	for i := 0; n > c.goroutines && i < 200; i++ {
		time.Sleep(10 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	if n > c.goroutines {
		buf := make([]byte, 1<<14)
		c.Failf("leak", "%d goroutines are left after %s, there were %d before: %s", n, after, c.goroutines, buf[:runtime.Stack(buf, true)])
	}
	c.Count("leaks.checked", 1)
}

// mustRefuse opens what can't be opened.
func (c *Ctx) mustRefuse(kind, path string, create bool, what string) error {
	step()
	d, got, err := openAs(kind, path, create)
	if err == nil {
		d.Close()
		c.Failf("not-refused", "%s: opening %s (create=%v) succeeded", kind, what, create)
	}
	if got {
		c.Failf("not-refused", "%s: opening %s (create=%v) failed and returned a dictionary", kind, what, create)
	}
	c.Count("refused", 1)
	c.Observe(hashString(what + err.Error()[:3]))
	return err
}

func mustDo(err error) {
	if err != nil {
		panic(inconclusive(err.Error()))
	}
}

func missingCase(kind string) func(c *Ctx) {
	return func(c *Ctx) {
		mustDo(os.Mkdir(c.Path("dir"), 0o777))
		mustDo(os.WriteFile(c.Path("plain"), []byte("x"), 0o666))
		mustDo(os.Symlink(c.Path("nowhere"), c.Path("dangling")))
		mustDo(os.Symlink(c.Path("loop2"), c.Path("loop1")))
		mustDo(os.Symlink(c.Path("loop1"), c.Path("loop2")))
		list := func() string {
			var names []string
			filepath.Walk(c.Dir, func(p string, fi os.FileInfo, err error) error {
				names = append(names, fmt.Sprint(p, fi.Size()))
				return nil
			})
			return strings.Join(names, " ")
		}
		before := list()
		always := map[string]string{
			"a directory":                  c.Path("dir"),
			"a directory, with slash":      c.Path("dir") + "/",
			"a file in no directory":       c.Path("no/such/file"),
			"a file below a file":          c.Path("plain/file"),
			"a name too long":              c.Path(strings.Repeat("n", 300)),
			"a path too long":              c.Path(strings.Repeat("n/", 3000)),
			"a path with NUL":              c.Path("a\x00b"),
			"the empty path":               "",
			"a link to itself":             c.Path("loop1"),
			"a missing file, with slash":   c.Path("none") + "/",
			"a device that isn't seekable": "/dev/null",
		}
		for round := 0; round < 20; round++ {
			for _, what := range sortedKeysOf(always) {
				for _, create := range []bool{false, true} {
					c.mustRefuse(kind, always[what], create, what)
				}
			}
			for _, what := range []string{"none", "dangling", "none.db", "dir/none", "a b\nc", "\xff\xfe"} {
				err := c.mustRefuse(kind, c.Path(what), false, "the missing "+what)
				if !errors.Is(err, os.ErrNotExist) {
					c.Failf("wrong-error", "%s: opening a missing file told %q, not that it doesn't exist", kind, err)
				}
			}
			if after := list(); after != before {
				c.Failf("created", "%s: opening what must fail left files behind: %s", kind, after)
			}
			c.nothingHeld("opening what must fail")
		}
		// with leave to create they come to be
		for _, what := range []string{"none", "dangling", "none.db", "dir/none", "a b\nc", "\xff\xfe"} {
			s := &Store{Kind: kind, Path: c.Path(what)}
			for _, create := range []bool{true, false, true, false} {
				if err := s.Open(create); err != nil {
					c.Failf("open", "%s: opening %q (create=%v) failed: %v", kind, what, create, err)
				}
				if out, ok := s.Apply(opTest, []byte("k"), nil, true); (ok == 1) != (s.Shape().Count == 1) || (ok == 1) != (string(out) == "v") {
					c.Failf("content", "%s: what was set before closing isn't there", kind)
				}
				s.Apply(opSet, []byte("k"), []byte("v"), false)
				if err := s.Close(); err != nil {
					c.Failf("close", "%s: closing failed: %v", kind, err)
				}
			}
			if s.Open(false); s.Shape().Count != 1 {
				c.Failf("content", "%s: %d keys where 1 was set", kind, s.Shape().Count)
			}
			s.Close()
			c.Count("created", 1)
		}
		c.nothingHeld("closing")
		c.sample = fmt.Sprintf("%d opens refused of %d kinds", c.counters["refused"], len(always)+5)
		if c.counters["refused"] > 100 {
			c.Nontrivial()
		}
	}
}

func sortedKeysOf(m map[string]string) []string {
	s := &sortedKeys{}
	for k := range m {
		s.insert(k)
	}
	return s.all()
}

// someStore makes a closed store with something in it, and returns its bytes.
func someStore(c *Ctx, kind, path string, items int) ([]byte, *Runner) {
	r := &Runner{c: c, s: &Store{Kind: kind, Path: path}, m: NewModel(), val: "mixed", rng: NewRng(c.Rng.U64())}
	r.pool = keyPool("mixed", items+1, r.rng)
	r.mustOpen(true)
	r.noVerify = true
	if items > 0 {
		r.phase("churn", items*2)
	}
	r.mustClose()
	b, err := os.ReadFile(path)
	mustDo(err)
	return b, r
}

// The header of the storage of files.
const fileHead = 4096

var signature = []byte("!MSF.")

func headerField(b []byte, i int) int {
	return int(binary.BigEndian.Uint64(b[len(signature)+8*i:]))
}

// spoiledCase opens files that were cut off or aren't of the right kind.
func spoiledCase(kind string, items int) func(c *Ctx) {
	return func(c *Ctx) {
		good, r := someStore(c, kind, c.Path("good"), items)
		if !bytes.HasPrefix(good, signature) {
			panic(inconclusive("no signature"))
		}
		bad := c.Path("bad")
		try := func(what string, b []byte) {
			mustDo(os.WriteFile(bad, b, 0o666))
			for _, create := range []bool{false, true} {
				c.mustRefuse(kind, bad, create, what)
				now, err := os.ReadFile(bad)
				mustDo(err)
				if !bytes.Equal(now, b) {
					c.Failf("spoiled", "%s: opening %s failed and changed the file (%d bytes, before %d)", kind, what, len(now), len(b))
				}
			}
		}
		// cut off
		n := headerField(good, 1)
		bitmap := headerField(good, 4)
		whole := fileHead + n + bitmap
		if whole > len(good) {
			panic(inconclusive("unknown layout"))
		}
		for l := 0; l < whole; l++ {
			switch {
			case l < 64, l%97 == 0 && l < fileHead, l > fileHead-8 && l < fileHead+8, l > whole-24 || l >= fileHead+n && l%1777 == 0:
				try(fmt.Sprintf("a store of %d bytes cut off at %d", whole, l), good[:l])
				c.Count("cut", 1)
			}
		}
		for i := 0; i < 40; i++ {
			l := r.rng.Intn(whole)
			try(fmt.Sprintf("a store of %d bytes cut off at %d", whole, l), good[:l])
			c.Count("cut", 1)
		}
		// of another signature
		for i := range signature {
			for bit := 0; bit < 8; bit++ {
				b := append([]byte{}, good...)
				b[i] ^= 1 << uint(bit)
				try(fmt.Sprintf("a store with bit %d of byte %d wrong", bit, i), b)
				c.Count("flipped", 1)
			}
		}
		// of other things
		for _, l := range []int{0, 1, 4, 5, 6, 77, 4095, 4096, 4097, 8192, 70000} {
			b := make([]byte, l)
			try(fmt.Sprintf("a file of %d zeros", l), b)
			r.rng.Fill(b)
			if !bytes.HasPrefix(b, signature) {
				try(fmt.Sprintf("a file of %d random bytes", l), b)
			}
			for i := range b {
				b[i] = "plain text\n"[i%11]
			}
			try(fmt.Sprintf("a text of %d bytes", l), b)
		}
		c.nothingHeld("opening files that are none")
		// the good one is still good
		r.mustOpen(false)
		r.verify(true)
		r.mustClose()
		c.nothingHeld("closing")
		c.sample = fmt.Sprintf("%d opens refused, of files cut off at %d places of %d and %d flipped", c.counters["refused"], c.counters["cut"], whole, c.counters["flipped"])
		c.Nontrivial()
	}
}

// strangeCase opens storages that hold something else than the dictionary asked
// for.
func strangeCase(kind string) func(c *Ctx) {
	return func(c *Ctx) {
		other := map[string]string{"od": "dict", "dict": "od"}[kind]
		refuse := func(path, what string) {
			b, err := os.ReadFile(path)
			mustDo(err)
			for _, create := range []bool{false, true} {
				c.mustRefuse(kind, path, create, what)
				now, err := os.ReadFile(path)
				mustDo(err)
				if !bytes.Equal(now, b) {
					c.Failf("spoiled", "%s: opening %s failed and changed the file", kind, what)
				}
			}
			c.Count("strange", 1)
		}
		for i, n := range []int{0, 1, 2, 3, 5, 9, 17, 50, 100, 150, 200, 500, 1000, 3000} {
			step()
			p := c.Path(fmt.Sprintf("other%d", i))
			_, r := someStore(c, other, p, n)
			refuse(p, fmt.Sprintf("a closed %s of %d keys", other, r.m.Len()))
			r.mustOpen(false)
			r.verify(true)
			r.phase("drain", 0)
			r.mustClose()
			refuse(p, "an emptied "+other)
			r.mustOpen(false)
			r.verify(true)
			r.mustClose()
		}
		for i := 1; i < 120; i++ {
			for j, text := range []string{"\x00", "plain text\n", "\xff"} {
				step()
				p := c.Path(fmt.Sprintf("foreign%d-%d", i, j))
				fs := new(fsm.FileStorage).Init()
				mustDo(fs.Open(p, true))
				if i%5 == 0 {
					fs.AllocateAlignedSpace(8192)
				}
				addr, b := fs.AllocateSpace(i)
				for k := range b {
					b[k] = text[k%len(text)]
				}
				fs.SetPrimarySpace(addr)
				mustDo(fs.Close())
				refuse(p, fmt.Sprintf("a storage of %d bytes of %q", i, text))
				os.Remove(p)
			}
		}
		c.nothingHeld("opening what is something else")
		c.sample = fmt.Sprintf("%d storages of something else", c.counters["strange"])
		c.Nontrivial()
	}
}

// leakCase opens and closes over and over.
func leakCase(kind string, items int) func(c *Ctx) {
	return func(c *Ctx) {
		_, r := someStore(c, kind, c.Path("store"), items)
		c.nothingHeld("closing")
		for i := 0; i < 150; i++ {
			r.mustOpen(i&1 == 0)
			if fds, maps := held(c.Dir); fds != 1 || maps != 1 {
				panic(inconclusive(fmt.Sprintf("an open store holds %d descriptors and %d mappings", fds, maps)))
			}
			switch i % 3 {
			case 0:
				r.verify(false)
			case 1:
				r.phase("churn", 60)
			}
			r.mustClose()
			c.nothingHeld(fmt.Sprintf("session %d", i))
			c.Count("sessions", 1)
		}
		c.Observe(uint64(items))
		c.sample = fmt.Sprintf("%d sessions, %d times looked for leaks", c.counters["sessions"], c.counters["leaks.checked"])
		c.Nontrivial()
	}
}

func withLimit(res int, soft uint64, f func()) {
	var old syscall.Rlimit
	mustDo(syscall.Getrlimit(res, &old))
	mustDo(syscall.Setrlimit(res, &syscall.Rlimit{Cur: soft, Max: old.Max}))
	defer syscall.Setrlimit(res, &old)
	f()
}

// faultCase makes the writes of Close and the opens of files fail, by limits of
// the operating system.
func faultCase(kind string, items int) func(c *Ctx) {
	return func(c *Ctx) {
		signal.Ignore(syscall.SIGXFSZ)
		_, r := someStore(c, kind, c.Path("store"), items)
		r.reopenTwice()
		good, err := os.ReadFile(c.Path("store"))
		mustDo(err)
		n, bitmap := headerField(good, 1), headerField(good, 4)
		fail := func(limit int, what string) {
			step()
			p := c.Path("faulty")
			mustDo(os.WriteFile(p, good, 0o666))
			d, _, err := openAs(kind, p, false)
			if err != nil {
				c.Failf("open", "%s: opening failed: %v", kind, err)
			}
			loud := false
			withLimit(syscall.RLIMIT_FSIZE, uint64(limit), func() {
				// no room to grow the file is not told but panicked with
				defer func() { loud = recover() != nil }()
				err = d.Close()
			})
			if loud {
				c.Count("faults.panicked", 1)
				return
			}
			if err == nil {
				c.Failf("close-error", "%s: Close told nothing of its failure to write %s (no more than %d bytes could be written)", kind, what, limit)
			}
			c.Count("faults."+what, 1)
			c.Observe(uint64(limit))
		}
		for l := 0; l < fileHead; l++ {
			if l < 16 || l%131 == 0 || l > fileHead-4 {
				fail(l, "the header")
			}
		}
		for l := fileHead + n; l < fileHead+n+bitmap; l++ {
			if l < fileHead+n+4 || l%1777 == 0 || l > fileHead+n+bitmap-4 {
				fail(l, "the bitmap")
			}
		}
		// opens
		for i := 0; i < 10; i++ {
			p := c.Path(fmt.Sprintf("fresh%d", i))
			withLimit(syscall.RLIMIT_FSIZE, uint64(i*i*50), func() {
				c.mustRefuse(kind, p, true, "a new file that can't be written to")
			})
			os.Remove(p)
			c.Count("faults.create", 1)
			residentSize() // opens what it reads from
			runtime.GC()   // no finalizer is to close a file meanwhile
			var fds []*os.File
			withLimit(syscall.RLIMIT_NOFILE, 64, func() {
				for {
					f, err := os.Open("/dev/null")
					if err != nil {
						break
					}
					fds = append(fds, f)
				}
				err := c.mustRefuse(kind, c.Path("store"), i&1 == 0, "one file too many")
				if !errors.Is(err, syscall.EMFILE) {
					c.Failf("wrong-error", "%s: with no descriptor left, opening told %q", kind, err)
				}
				c.mustRefuse(kind, c.Path("other"), i&1 == 0, "one new file too many")
				for _, f := range fds {
					f.Close()
				}
			})
			if _, err := os.Stat(c.Path("other")); err == nil {
				c.Failf("created", "%s: an open that failed created the file", kind)
			}
			c.Count("faults.descriptors", 2)
		}
		r.mustOpen(false)
		r.verify(true)
		r.mustClose()
		c.sample = fmt.Sprint(c.counters)
		c.Nontrivial()
	}
}

func (r *Runner) reopenTwice() {
	for i := 0; i < 2; i++ {
		r.mustOpen(false)
		r.mustClose()
	}
}

// injectCase makes the storage fail to open and to close.
func injectCase(kind string) func(c *Ctx) {
	return func(c *Ctx) {
		for i := 0; i < 40; i++ {
			step()
			want := fmt.Errorf("injected %d of %s", i, kind)
			p := c.Path(fmt.Sprintf("store%d", i))
			if i&1 == 1 {
				s := &Store{Kind: kind, Path: p}
				if err := s.Open(true); err != nil {
					c.Failf("open", "opening failed: %v", err)
				}
				mustDo(s.Close())
			}
			sanFail(want, nil)
			d, got, err := openAs(kind, p, i%3 == 0)
			if err == nil || got {
				c.Failf("open-error", "%s: the storage failed to open, and Open told %v and returned a dictionary (%v)", kind, err, got)
			}
			if !errors.Is(err, want) {
				c.Failf("open-error", "%s: the storage failed to open with %q, Open told %q", kind, want, err)
			}
			if d, _, err = openAs(kind, p, true); err != nil {
				c.Failf("open", "%s: opening again failed: %v", kind, err)
			}
			sanFail(nil, want)
			if err := d.Close(); !errors.Is(err, want) {
				c.Failf("close-error", "%s: the storage failed to close with %q, Close told %v", kind, want, err)
			}
			sanFail(nil, nil)
			c.Count("injected", 2)
		}
		c.sample = fmt.Sprintf("%d failures injected", c.counters["injected"])
		c.Observe(hashString(kind))
		c.Nontrivial()
	}
}

func init() {
	register("C16", Property{
		Level:   "fault_enumeration",
		Rule:    "A case opens and closes dictionaries of a kind: at paths where there is no store (missing, directories, loops, ...), on files cut off at many lengths and with each bit of the signature flipped, on storages that hold the other kind of dictionary or something else, with the writes of Close cut short at many offsets of the header and the bitmap, without descriptors, with failures injected into the storage, and over and over, looking for descriptors and mappings left. Files refused are compared byte by byte. Distinct: by a hash of what was tried; every case that ran to its end is non-trivial.",
		MustSee: []string{"refused", "cut", "flipped", "strange", "faults.the header", "faults.the bitmap", "faults.create", "faults.descriptors", "injected", "leaks.checked"},
		Cases: func(tier string, rng *Rng) []Case {
			var cs []Case
			for _, k := range []string{"od", "dict"} {
				add := func(v, name string, run func(c *Ctx)) {
					cs = append(cs, Case{Name: k + "/" + name, Variant: v, Run: run})
				}
				add("real", "missing", missingCase(k))
				add("real", "strange", strangeCase(k))
				add("san", "injected", injectCase(k))
				sizes := []int{0, 1, 30, 400}
				if thorough(tier) {
					sizes = append(sizes, 2, 7, 100, 1000, 5000, 20000)
				}
				for _, n := range sizes {
					add("real", fmt.Sprintf("spoiled-%d", n), spoiledCase(k, n))
					add("real", fmt.Sprintf("leaks-%d", n), leakCase(k, n))
					add("real", fmt.Sprintf("faults-%d", n), faultCase(k, n))
				}
			}
			return cs
		},
	})
}
