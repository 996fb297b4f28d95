// Package fsm is a sanitizing stand-in for github.com/roy2220/fsm v0.6.1.
//
// It keeps the original implementation (package orig, copied verbatim) and its
// on-disk format, and adds the monitors a client of the library is checked
// against:
//
//   - every Allocate... moves the mapping: accessors handed out earlier fault
//     from then on (the original only does so when the file happens to grow);
//   - accessors are capped to the space they belong to;
//   - spaces just allocated hold garbage and freed ones are overwritten;
//   - a table of live spaces detects double frees, the use of spaces that are
//     freed or were never allocated and a mix-up of the two kinds of spaces;
//   - the distinct spaces touched are counted;
//   - Open and Close can be made to fail.
package fsm

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"syscall"

	"github.com/roy2220/fsm/orig"
)

// Stats is that of the original.
type Stats = orig.Stats

// SanError is the value the sanitizer panics with.
type SanError struct{ Kind, Detail string }

func (e SanError) Error() string { return "fsmsan: " + e.Kind + ": " + e.Detail }

// SanSpace describes a live space.
type SanSpace struct {
	Addr    int64
	Request int
	Size    int
	Aligned bool
	Serial  int
}

// SanCounters counts what the sanitizer observed.
type SanCounters struct {
	Allocs, AlignedAllocs, Frees, AlignedFrees, Accesses int64
	Remaps, Opens, Closes, Errors                        int64
	MaxLive                                              int64
}

// Global monitor state. Storages are used by one goroutine at a time.
var (
	San SanCounters

	// SanOpenErr and SanCloseErr, if not nil, make the next Open and Close fail.
	SanOpenErr, SanCloseErr error

	// SanFreeMoves makes every Free... move the mapping too, as the documentation
	// of the original allows for but no version of it does.
	SanFreeMoves = false

	// SanNoRemap turns off the moving of the mapping.
	SanNoRemap bool

	tables = map[string]*table{}
)

type table struct {
	ino     uint64
	size    int64
	primary int64
	tracked bool
	live    map[int64]*SanSpace
	serial  int
	open    *FileStorage
	counts  SanCounts
}

// SanCounts are the live spaces of a file, in numbers.
type SanCounts struct {
	Spaces, Aligned            int
	SpaceBytes, AlignedBytes   int64 // as allocated
	SpaceRequest, AlignRequest int64 // as asked for
	Tracked                    bool
}

func (t *table) count(s *SanSpace, d int) {
	if s.Aligned {
		t.counts.Aligned += d
		t.counts.AlignedBytes += int64(d * s.Size)
		t.counts.AlignRequest += int64(d * s.Request)
	} else {
		t.counts.Spaces += d
		t.counts.SpaceBytes += int64(d * s.Size)
		t.counts.SpaceRequest += int64(d * s.Request)
	}
}

// SanCount counts the live spaces of a file, open or closed.
func SanCount(fileName string) SanCounts {
	path, err := filepath.Abs(fileName)
	if err != nil {
		return SanCounts{}
	}
	t := tables[path]
	if t == nil {
		return SanCounts{}
	}
	n := t.counts
	n.Tracked = t.tracked
	return n
}

const retiredViews = 24

// FileStorage wraps that of the original.
type FileStorage struct {
	inner   orig.FileStorage
	tab     *table
	path    string
	view    []byte
	retired [][]byte
	isOpen  bool
	touched map[int64]struct{}
}

// Init as in the original.
func (fs *FileStorage) Init() *FileStorage {
	fs.inner.Init()
	return fs
}

func fail(kind, format string, args ...interface{}) {
	San.Errors++
	panic(SanError{kind, fmt.Sprintf(format, args...)})
}

// Open as in the original.
func (fs *FileStorage) Open(fileName string, createFileIfNotExists bool) error {
	if err := SanOpenErr; err != nil {
		SanOpenErr = nil
		return err
	}

	path, err := filepath.Abs(fileName)
	if err != nil {
		return err
	}

	_, statErr := os.Stat(path)
	fresh := os.IsNotExist(statErr)
	ino, size := identify(path)

	if err := fs.inner.Open(fileName, createFileIfNotExists); err != nil {
		return err
	}

	San.Opens++
	fs.path = path
	t := tables[path]

	switch {
	case fresh:
		t = &table{tracked: true, live: map[int64]*SanSpace{}}
	case t == nil || t.ino != ino || t.size != size || t.primary != fs.inner.PrimarySpace():
		t = &table{tracked: false, live: map[int64]*SanSpace{}}
	}

	tables[path] = t
	t.open = fs
	fs.tab = t
	fs.isOpen = true

	if SanTouchOpen {
		fs.SanTouchBegin()
	}

	fs.remap()
	return nil
}

// Close as in the original.
func (fs *FileStorage) Close() error {
	if err := SanCloseErr; err != nil {
		SanCloseErr = nil
		return err
	}

	if !fs.isOpen {
		return fs.inner.Close()
	}

	fs.isOpen = false
	fs.dropView()
	primary := fs.inner.PrimarySpace()
	err := fs.inner.Close()
	San.Closes++
	fs.tab.ino, fs.tab.size = identify(fs.path)
	fs.tab.primary = primary
	fs.tab.open = nil

	// stale accessors keep faulting until the views are unmapped here; the
	// address ranges are given back as the storage is gone
	for _, v := range fs.retired {
		syscall.Munmap(v)
	}

	fs.retired = nil
	return err
}

func identify(path string) (uint64, int64) {
	var st syscall.Stat_t
	if err := syscall.Stat(path, &st); err != nil {
		return 0, -1
	}
	return st.Ino, st.Size
}

func (fs *FileStorage) dropView() {
	if fs.view == nil {
		return
	}

	if err := syscall.Mprotect(fs.view, syscall.PROT_NONE); err != nil {
		panic(err)
	}

	fs.retired = append(fs.retired, fs.view)
	fs.view = nil

	if len(fs.retired) > retiredViews {
		if err := syscall.Munmap(fs.retired[0]); err != nil {
			panic(err)
		}
		fs.retired = append(fs.retired[:0], fs.retired[1:]...)
	}
}

func (fs *FileStorage) remap() {
	n := fs.inner.SanMappedSize()

	if SanNoRemap && n == len(fs.view) {
		return
	}

	fs.dropView()

	if n == 0 {
		return
	}

	view, err := syscall.Mmap(int(fs.inner.SanFile().Fd()), orig.SanSpaceOffset, n,
		syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}

	fs.view = view
	San.Remaps++
}

func (fs *FileStorage) accessor(addr int64, size int) []byte {
	return fs.view[addr : addr+int64(size) : addr+int64(size)]
}

func (fs *FileStorage) touch(addr int64) {
	San.Accesses++
	if fs.touched != nil {
		fs.touched[addr] = struct{}{}
	}
}

func (fs *FileStorage) add(addr int64, request, size int, aligned bool) []byte {
	t := fs.tab

	if size < request {
		fail("bad-alloc", "%d bytes for %d", size, request)
	}

	if s, ok := t.live[addr]; ok {
		fail("bad-alloc", "space %#x allocated twice (live since %d)", addr, s.Serial)
	}

	t.serial++
	t.live[addr] = &SanSpace{Addr: addr, Request: request, Size: size, Aligned: aligned, Serial: t.serial}
	t.count(t.live[addr], 1)
	if n := int64(len(t.live)); n > San.MaxLive {
		San.MaxLive = n
	}

	fs.remap()
	fs.touch(addr)
	b := fs.accessor(addr, size)
	fill(b, 0xC3)
	return b
}

func (t *table) remove(addr int64) {
	if s := t.live[addr]; s != nil {
		t.count(s, -1)
		delete(t.live, addr)
	}
}

func fill(b []byte, x byte) {
	for i := range b {
		b[i] = x
	}
}

func kindOf(aligned bool) string {
	if aligned {
		return "aligned space"
	}
	return "space"
}

func (fs *FileStorage) check(op string, addr int64, aligned bool) *SanSpace {
	if !fs.isOpen {
		fail("closed", "%s of %#x on a closed storage", op, addr)
	}

	s, ok := fs.tab.live[addr]

	if !ok {
		if fs.tab.tracked {
			fail("not-live", "%s of %s %#x, which isn't live", op, kindOf(aligned), addr)
		}
		return nil
	}

	if s.Aligned != aligned {
		fail("kind-mismatch", "%s of %s %#x as %s", op, kindOf(s.Aligned), addr, kindOf(aligned))
	}

	return s
}

// AllocateSpace as in the original.
func (fs *FileStorage) AllocateSpace(spaceSize int) (int64, []byte) {
	San.Allocs++
	addr, b := fs.inner.AllocateSpace(spaceSize)
	return addr, fs.add(addr, spaceSize, len(b), false)
}

// AllocateAlignedSpace as in the original.
func (fs *FileStorage) AllocateAlignedSpace(blockSize int) (int64, []byte) {
	San.AlignedAllocs++
	addr, b := fs.inner.AllocateAlignedSpace(blockSize)
	return addr, fs.add(addr, blockSize, len(b), true)
}

// FreeSpace as in the original.
func (fs *FileStorage) FreeSpace(space int64) {
	San.Frees++
	fs.check("free", space, false)
	fill(fs.accessor(space, len(fs.inner.AccessSpace(space))), 0xDE)
	fs.inner.FreeSpace(space)
	fs.tab.remove(space)
	fs.afterFree()
}

// FreeAlignedSpace as in the original.
func (fs *FileStorage) FreeAlignedSpace(block int64) {
	San.AlignedFrees++
	fs.check("free", block, true)
	fill(fs.accessor(block, len(fs.inner.AccessAlignedSpace(block))), 0xDE)
	fs.inner.FreeAlignedSpace(block)
	fs.tab.remove(block)
	fs.afterFree()
}

// afterFree keeps the view as large as the mapping of the original.
func (fs *FileStorage) afterFree() {
	if SanFreeMoves || fs.inner.SanMappedSize() != len(fs.view) {
		fs.remap()
	}
}

// AccessSpace as in the original.
func (fs *FileStorage) AccessSpace(space int64) []byte {
	fs.check("access", space, false)
	fs.touch(space)
	return fs.accessor(space, len(fs.inner.AccessSpace(space)))
}

// AccessAlignedSpace as in the original.
func (fs *FileStorage) AccessAlignedSpace(block int64) []byte {
	fs.check("access", block, true)
	fs.touch(block)
	return fs.accessor(block, len(fs.inner.AccessAlignedSpace(block)))
}

// SetPrimarySpace as in the original.
func (fs *FileStorage) SetPrimarySpace(primarySpace int64) { fs.inner.SetPrimarySpace(primarySpace) }

// PrimarySpace as in the original.
func (fs *FileStorage) PrimarySpace() int64 { return fs.inner.PrimarySpace() }

// Stats as in the original.
func (fs *FileStorage) Stats() Stats { return fs.inner.Stats() }

// SanOf returns the storage open on the given file, or nil.
func SanOf(fileName string) *FileStorage {
	path, err := filepath.Abs(fileName)
	if err != nil {
		return nil
	}
	if t := tables[path]; t != nil {
		return t.open
	}
	return nil
}

// SanForget drops what is known about a file.
func SanForget(fileName string) {
	if path, err := filepath.Abs(fileName); err == nil {
		delete(tables, path)
	}
}

// SanLive lists the live spaces of a file, open or closed; ok tells whether
// all of them are known.
func SanLive(fileName string) (spaces []SanSpace, ok bool) {
	path, err := filepath.Abs(fileName)
	if err != nil {
		return nil, false
	}
	t := tables[path]
	if t == nil {
		return nil, false
	}
	for _, s := range t.live {
		spaces = append(spaces, *s)
	}
	sort.Slice(spaces, func(i, j int) bool { return spaces[i].Addr < spaces[j].Addr })
	return spaces, t.tracked
}

// SanTouchOpen makes storages record from the time that they are opened.
var SanTouchOpen bool

// SanTouchBegin starts to record the distinct spaces touched.
func (fs *FileStorage) SanTouchBegin() { fs.touched = map[int64]struct{}{} }

// SanTouchEnd stops that and returns how many spaces, of which how many
// aligned ones, were touched.
func (fs *FileStorage) SanTouchEnd() (all, aligned int) {
	for a := range fs.touched {
		all++
		if s := fs.tab.live[a]; s != nil && s.Aligned {
			aligned++
		}
	}
	fs.touched = nil
	return
}
