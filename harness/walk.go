package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/roy2220/fsm"
)

// Readers of the two on-disk structures, written from the format and not from
// the code: they look at every page and every space reachable.

// formatError is what a reader stops with.
type formatError struct{ kind, detail string }

func badf(kind, format string, args ...interface{}) {
	panic(formatError{kind, fmt.Sprintf(format, args...)})
}

// walking runs a reader and turns what it stumbles over into a violation.
func walking(c *Ctx, where string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(formatError); ok {
				c.Failf(e.kind, "%s: %s", where, e.detail)
			}
			panic(r)
		}
	}()
	f()
}

const (
	pageSize     = 8192
	leafHead     = 20
	recHead      = 8
	nodeHead     = 4
	childHead    = 12
	keyInPage    = 257 // a key of this size in a page is cut off ...
	keyPrefix    = 249 // ... after so many bytes
	valueInPage  = 129
	valuePrefix  = 121
	slotsPerDir  = 4096
	minDirShift  = 3
	shortKeySize = 24
)

// Tree is a B+ tree as read from the storage.
type Tree struct {
	Root                                  int64
	Height                                int
	Tail, Head                            int64
	Leafs, NonLeafs, Records, PayloadSize int64

	Keys, Values [][]byte
	Pages        map[int64]bool
	Spaces       map[int64]bool
	LeafOrder    []int64
	LeafLoads    []int
	NonLeafLoads []int
	MinChildren  int
	payload      int64
	fs           *fsm.FileStorage
	info         int64
	rootNonLeaf  int
}

func be32(b []byte) int   { return int(int32(binary.BigEndian.Uint32(b))) }
func be64(b []byte) int64 { return int64(binary.BigEndian.Uint64(b)) }

// readTree reads the tree whose info is at the given address.
func readTree(fs *fsm.FileStorage, info int64) *Tree {
	t := &Tree{fs: fs, info: info, Pages: map[int64]bool{}, Spaces: map[int64]bool{}, MinChildren: 1 << 30}
	b := fs.AccessSpace(info)
	if len(b) < 57 {
		badf("info", "the info at %#x is of %d bytes", info, len(b))
	}
	t.Root, t.Height = be64(b), int(int8(b[8]))
	t.Tail, t.Head = be64(b[9:]), be64(b[17:])
	t.Leafs, t.NonLeafs, t.Records, t.PayloadSize = be64(b[25:]), be64(b[33:]), be64(b[41:]), be64(b[49:])
	if t.Height < 1 || t.Height > 40 {
		badf("height", "a height of %d", t.Height)
	}
	t.node(t.Root, 1, nil, nil)
	t.chain()
	if n := int64(len(t.LeafLoads)); n != t.Leafs {
		badf("leaf-count", "%d leafs, %d told", n, t.Leafs)
	}
	if n := int64(len(t.NonLeafLoads)); n != t.NonLeafs {
		badf("nonleaf-count", "%d non-leafs, %d told", n, t.NonLeafs)
	}
	if n := int64(len(t.Keys)); n != t.Records {
		badf("record-count", "%d records, %d told", n, t.Records)
	}
	if t.payload != t.PayloadSize {
		badf("payload", "a payload of %d bytes, %d told", t.payload, t.PayloadSize)
	}
	for i := 1; i < len(t.Keys); i++ {
		if bytes.Compare(t.Keys[i-1], t.Keys[i]) >= 0 {
			badf("key-order", "key %d, %s, isn't behind key %s", i, short(t.Keys[i]), short(t.Keys[i-1]))
		}
	}
	return t
}

func (t *Tree) overflow(what string, cell []byte, prefix int) ([]byte, int64) {
	addr := be64(cell[prefix:])
	b := t.fs.AccessSpace(addr)
	n, i := binary.Uvarint(b)
	if i <= 0 || n > uint64(len(b)-i) {
		badf("overflow", "the rest of a %s at %#x tells of %d bytes in a space of %d", what, addr, n, len(b))
	}
	out := append(append(make([]byte, 0, prefix+int(n)), cell[:prefix]...), b[i:i+int(n)]...)
	if len(out) < prefix+8 {
		badf("overflow", "a %s of %d bytes was cut off", what, len(out))
	}
	return out, addr
}

func (t *Tree) key(cell []byte) ([]byte, int64) {
	if len(cell) > keyInPage {
		badf("key-size", "a key takes %d bytes of a page", len(cell))
	}
	if len(cell) < keyInPage {
		return append([]byte{}, cell...), -1
	}
	return t.overflow("key", cell, keyPrefix)
}

func (t *Tree) value(cell []byte) ([]byte, int64) {
	if len(cell) > valueInPage {
		badf("value-size", "a value takes %d bytes of a page", len(cell))
	}
	if len(cell) < valueInPage {
		return append([]byte{}, cell...), -1
	}
	return t.overflow("value", cell, valuePrefix)
}

func (t *Tree) own(addr int64, what string) {
	if addr < 0 {
		return
	}
	if t.Spaces[addr] {
		badf("shared-space", "the space %#x of a %s belongs to two", addr, what)
	}
	t.Spaces[addr] = true
}

// node reads the subtree of a page; its keys must lie in [lo, hi).
func (t *Tree) node(addr int64, depth int, lo, hi []byte) {
	step()
	if t.Pages[addr] {
		badf("shared-page", "the page %#x has two parents", addr)
	}
	t.Pages[addr] = true
	p := t.fs.AccessAlignedSpace(addr)
	if len(p) < pageSize {
		badf("page-size", "the page %#x is of %d bytes", addr, len(p))
	}
	p = p[:pageSize]
	if depth == t.Height {
		t.leaf(addr, p, lo, hi)
		return
	}
	n := be32(p)
	if n < 1 || n > (pageSize-nodeHead)/childHead {
		badf("child-count", "the non-leaf %#x tells of %d children", addr, n)
	}
	if n < 2 {
		badf("one-child", "the non-leaf %#x at depth %d of %d has one child", addr, depth, t.Height)
	}
	if n < t.MinChildren {
		t.MinChildren = n
	}
	at := func(i int) int {
		if i == n {
			return pageSize
		}
		return be32(p[nodeHead+i*childHead:])
	}
	end := nodeHead + n*childHead
	if at(0) < end {
		badf("page-overflow", "the headers of the %d children of the non-leaf %#x end at %d, their keys begin at %d", n, addr, end, at(0))
	}
	load := (end - nodeHead) + pageSize - at(0)
	t.NonLeafLoads = append(t.NonLeafLoads, load)
	if depth == 1 {
		t.rootNonLeaf = len(t.NonLeafLoads) - 1
	}
	var keys [][]byte
	var children []int64
	for i := 0; i < n; i++ {
		if at(i) > at(i+1) || at(i) < end || at(i+1) > pageSize {
			badf("page-overflow", "key %d of the non-leaf %#x is at [%d, %d)", i, addr, at(i), at(i+1))
		}
		if i == 0 {
			if at(0) != at(1) {
				badf("first-key", "the first key of the non-leaf %#x isn't empty", addr)
			}
			keys = append(keys, nil)
		} else {
			k, _ := t.key(p[at(i):at(i+1)])
			keys = append(keys, k)
			if i > 1 && bytes.Compare(keys[i-1], k) >= 0 {
				badf("key-order", "separator %d of the non-leaf %#x, %s, isn't behind %s", i, addr, short(k), short(keys[i-1]))
			}
			if lo != nil && bytes.Compare(k, lo) <= 0 || hi != nil && bytes.Compare(k, hi) >= 0 {
				badf("separator", "separator %d of the non-leaf %#x, %s, isn't between %s and %s", i, addr, short(k), short(lo), short(hi))
			}
		}
		children = append(children, be64(p[nodeHead+i*childHead+4:]))
	}
	for i := range children {
		l, h := lo, hi
		if i > 0 {
			l = keys[i]
		}
		if i+1 < n {
			h = keys[i+1]
		}
		t.node(children[i], depth+1, l, h)
	}
}

func (t *Tree) leaf(addr int64, p []byte, lo, hi []byte) {
	n := be32(p[16:])
	if n < 0 || n > (pageSize-leafHead)/recHead {
		badf("record-count", "the leaf %#x tells of %d records", addr, n)
	}
	if n == 0 && t.Height > 1 {
		badf("empty-leaf", "the leaf %#x of a tree of height %d has no records", addr, t.Height)
	}
	t.LeafOrder = append(t.LeafOrder, addr)
	at := func(i int) int { // key 0, value 0, key 1, ...
		if i == 2*n {
			return pageSize
		}
		return be32(p[leafHead+i*4:])
	}
	end := leafHead + n*recHead
	if at(0) < end {
		badf("page-overflow", "the headers of the %d records of the leaf %#x end at %d, their keys begin at %d", n, addr, end, at(0))
	}
	t.LeafLoads = append(t.LeafLoads, (end-leafHead)+pageSize-at(0))
	for i := 0; i < 2*n; i++ {
		if at(i) > at(i+1) || at(i) < end || at(i+1) > pageSize {
			badf("page-overflow", "record %d of the leaf %#x lies at [%d, %d)", i/2, addr, at(i), at(i+1))
		}
	}
	for i := 0; i < n; i++ {
		k, ka := t.key(p[at(2*i):at(2*i+1)])
		v, va := t.value(p[at(2*i+1):at(2*i+2)])
		t.own(ka, "key")
		t.own(va, "value")
		if lo != nil && bytes.Compare(k, lo) < 0 || hi != nil && bytes.Compare(k, hi) >= 0 {
			badf("separator", "key %d of the leaf %#x, %s, isn't between the separators %s and %s", i, addr, short(k), short(lo), short(hi))
		}
		if i == 0 && lo != nil && !bytes.Equal(k, lo) {
			// a separator is the first key of what is right of it
			badf("separator", "the separator %s isn't the first key of the leaf %#x, %s", short(lo), addr, short(k))
		}
		t.Keys = append(t.Keys, k)
		t.Values = append(t.Values, v)
		t.payload += int64(len(k) + len(v))
	}
}

// chain checks the list of leafs, which is a ring.
func (t *Tree) chain() {
	n := len(t.LeafOrder)
	if t.Head != t.LeafOrder[0] || t.Tail != t.LeafOrder[n-1] {
		badf("leaf-list", "the list goes from %#x to %#x, the leafs from %#x to %#x", t.Head, t.Tail, t.LeafOrder[0], t.LeafOrder[n-1])
	}
	for i, a := range t.LeafOrder {
		p := t.fs.AccessAlignedSpace(a)
		if prev := be64(p); prev != t.LeafOrder[(i+n-1)%n] {
			badf("leaf-list", "leaf %d of %d tells of the previous one at %#x, which is at %#x", i, n, prev, t.LeafOrder[(i+n-1)%n])
		}
		if next := be64(p[8:]); next != t.LeafOrder[(i+1)%n] {
			badf("leaf-list", "leaf %d of %d tells of the next one at %#x, which is at %#x", i, n, next, t.LeafOrder[(i+1)%n])
		}
	}
}

// compare compares the content with the model.
func (t *Tree) compare(m *Model) {
	if len(t.Keys) != m.Len() {
		badf("content", "%d records are stored, %d are held", len(t.Keys), m.Len())
	}
	i := 0
	for _, ch := range m.keys.chunks {
		for _, k := range ch {
			if !eqBytes(t.Keys[i], k) {
				badf("content", "key %d: %s", i, diffAt(t.Keys[i], k))
			}
			if !eqBytes(t.Values[i], m.m[k]) {
				badf("content", "value of key %s: %s", short(t.Keys[i]), diffAt(t.Values[i], m.m[k]))
			}
			i++
		}
	}
}

// Hash is a hash map as read from the storage.
type Hash struct {
	DirsAddr                           int64
	DirCount, MaxDirShift              int
	SlotCount, MinSlotShift, ItemCount int
	PayloadSize                        int64

	Items     map[string]string
	Spaces    map[int64]bool
	UsedSlots int
	MaxChain  int
	fs        *fsm.FileStorage
	info      int64
}

// wire walks the fields of a protocol buffer.
func wire(b []byte, field func(num int, typ int, n uint64, data []byte)) {
	for len(b) > 0 {
		tag, i := binary.Uvarint(b)
		if i <= 0 {
			badf("wire", "a broken tag")
		}
		b = b[i:]
		num, typ := int(tag>>3), int(tag&7)
		switch typ {
		case 0:
			n, i := binary.Uvarint(b)
			if i <= 0 {
				badf("wire", "a broken number in field %d", num)
			}
			b = b[i:]
			field(num, typ, n, nil)
		case 1:
			if len(b) < 8 {
				badf("wire", "field %d is cut off", num)
			}
			field(num, typ, binary.LittleEndian.Uint64(b), nil)
			b = b[8:]
		case 2:
			n, i := binary.Uvarint(b)
			if i <= 0 || n > uint64(len(b)-i) {
				badf("wire", "field %d tells of %d bytes of %d", num, n, len(b))
			}
			field(num, typ, 0, b[i:i+int(n)])
			b = b[i+int(n):]
		default:
			badf("wire", "field %d is of type %d", num, typ)
		}
	}
}

func prefixed(b []byte, what string, addr int64) []byte {
	n, i := binary.Uvarint(b)
	if i <= 0 || n > uint64(len(b)-i) {
		badf("size", "the %s at %#x tells of %d bytes in a space of %d", what, addr, n, len(b))
	}
	return b[i : i+int(n)]
}

// readHash reads the hash map whose info is at the given address.
func readHash(fs *fsm.FileStorage, info int64) *Hash {
	h := &Hash{fs: fs, info: info, Items: map[string]string{}, Spaces: map[int64]bool{}}
	wire(prefixed(fs.AccessSpace(info), "info", info), func(num, typ int, n uint64, _ []byte) {
		switch num {
		case 1:
			h.DirsAddr = int64(n)
		case 2:
			h.DirCount = int(n)
		case 3:
			h.MaxDirShift = int(n)
		case 4:
			h.SlotCount = int(n)
		case 5:
			h.MinSlotShift = int(n)
		case 6:
			h.ItemCount = int(n)
		case 7:
			h.PayloadSize = int64(n)
		}
	})
	if h.SlotCount < 1 || h.SlotCount < 1<<uint(h.MinSlotShift) || h.SlotCount >= 2<<uint(h.MinSlotShift) {
		badf("slot-count", "%d slots, at least 2^%d", h.SlotCount, h.MinSlotShift)
	}
	if h.DirCount < 1 || h.SlotCount > h.DirCount*slotsPerDir {
		badf("dir-count", "%d directories for %d slots", h.DirCount, h.SlotCount)
	}
	if h.MaxDirShift < minDirShift || h.DirCount > 1<<uint(h.MaxDirShift) {
		badf("dir-count", "%d directories, of at most 2^%d", h.DirCount, h.MaxDirShift)
	}
	h.own(h.DirsAddr, "table of directories")
	dirs := fs.AccessSpace(h.DirsAddr)
	if len(dirs) < 8<<uint(h.MaxDirShift) {
		badf("dirs", "the table of 2^%d directories is of %d bytes", h.MaxDirShift, len(dirs))
	}
	var payload int64
	for i := 0; i < h.SlotCount; i++ {
		step()
		da := be64(dirs[i/slotsPerDir*8:])
		if i%slotsPerDir == 0 {
			h.own(da, "directory")
			if n := len(fs.AccessSpace(da)); n < slotsPerDir*8 {
				badf("dirs", "directory %d is of %d bytes", i/slotsPerDir, n)
			}
		}
		sa := be64(fs.AccessSpace(da)[i%slotsPerDir*8:])
		if sa == -1 {
			continue
		}
		h.own(sa, "slot")
		h.UsedSlots++
		var keySizes, valueSizes []int
		var sums []uint64
		var bin []byte
		wire(prefixed(fs.AccessSpace(sa), "slot", sa), func(num, typ int, _ uint64, data []byte) {
			switch num {
			case 1:
				var sum uint64
				var ks, vs int
				wire(data, func(num, typ int, n uint64, _ []byte) {
					switch num {
					case 1:
						sum = n
					case 2:
						ks = int(n)
					case 3:
						vs = int(n)
					}
				})
				sums, keySizes, valueSizes = append(sums, sum), append(keySizes, ks), append(valueSizes, vs)
			case 2:
				bin = data
			}
		})
		if len(sums) == 0 {
			badf("empty-slot", "slot %d of %d has a space and no items", i, h.SlotCount)
		}
		if len(sums) > h.MaxChain {
			h.MaxChain = len(sums)
		}
		for j := range sums {
			if keySizes[j] < 0 || keySizes[j] > len(bin) {
				badf("slot", "slot %d: key %d is of %d bytes, %d are left", i, j, keySizes[j], len(bin))
			}
			k := bin[:keySizes[j]]
			bin = bin[keySizes[j]:]
			vs := valueSizes[j]
			if j == len(sums)-1 {
				// the last value is what is left
				if vs != 0 && vs != len(bin) {
					badf("slot", "slot %d: the last value is of %d bytes, %d are left", i, vs, len(bin))
				}
				vs = len(bin)
			}
			if vs < 0 || vs > len(bin) {
				badf("slot", "slot %d: value %d is of %d bytes, %d are left", i, j, vs, len(bin))
			}
			v := bin[:vs]
			bin = bin[vs:]
			sum := fnv64a(k)
			want := uint64(0)
			if len(k) > shortKeySize {
				want = sum
			}
			if sums[j] != want {
				badf("key-sum", "slot %d: the sum of the key %s is kept as %#x, want %#x", i, short(k), sums[j], want)
			}
			at := int(sum & uint64(2<<uint(h.MinSlotShift)-1))
			if at >= h.SlotCount {
				at &^= 1 << uint(h.MinSlotShift)
			}
			if at != i {
				badf("wrong-slot", "the key %s is in slot %d of %d and belongs to slot %d", short(k), i, h.SlotCount, at)
			}
			if _, ok := h.Items[string(k)]; ok {
				badf("twice", "the key %s is there twice", short(k))
			}
			h.Items[string(k)] = string(v)
			payload += int64(len(k) + len(v))
		}
	}
	for i := (h.SlotCount + slotsPerDir - 1) / slotsPerDir; i < h.DirCount; i++ {
		da := be64(dirs[i*8:])
		h.own(da, "directory")
		fs.AccessSpace(da)
	}
	if len(h.Items) != h.ItemCount {
		badf("item-count", "%d items, %d told", len(h.Items), h.ItemCount)
	}
	if payload != h.PayloadSize {
		badf("payload", "a payload of %d bytes, %d told", payload, h.PayloadSize)
	}
	return h
}

func (h *Hash) own(addr int64, what string) {
	if h.Spaces[addr] {
		badf("shared-space", "the space %#x of a %s belongs to two", addr, what)
	}
	h.Spaces[addr] = true
}

func (h *Hash) compare(m *Model) {
	if len(h.Items) != m.Len() {
		badf("content", "%d items are stored, %d are held", len(h.Items), m.Len())
	}
	for k, v := range h.Items {
		want, ok := m.Get(k)
		if !ok {
			badf("content", "the key %s is stored and isn't held", short([]byte(k)))
		}
		if v != want {
			badf("content", "value of key %s: %s", short([]byte(k)), diffAt([]byte(v), want))
		}
	}
}

// inspectTree looks at the pages of an ordered store; an OrderedDict is closed
// and opened again for that.
func (r *Runner) inspectTree(look func(t *Tree)) {
	s := r.s
	r.inspect(func(fs *fsm.FileStorage, info int64) {
		walking(r.c, s.Kind, func() {
			t := readTree(fs, info)
			t.compare(r.m)
			look(t)
		})
	})
}

func (r *Runner) inspectHash(look func(h *Hash)) {
	s := r.s
	r.inspect(func(fs *fsm.FileStorage, info int64) {
		walking(r.c, s.Kind, func() {
			h := readHash(fs, info)
			h.compare(r.m)
			look(h)
		})
	})
}

func (r *Runner) inspect(look func(fs *fsm.FileStorage, info int64)) {
	s := r.s
	switch s.Kind {
	case "bpt":
		info := s.bt.Store()
		look(s.fs, info)
		s.bt.Load(info)
	case "hm":
		info := s.hm.Store()
		look(s.fs, info)
		s.hm.Load(info)
	default:
		r.mustClose()
		fs := new(fsm.FileStorage).Init()
		if err := fs.Open(s.Path, false); err != nil {
			panic(inconclusive(err.Error()))
		}
		look(fs, fs.PrimarySpace())
		if err := fs.Close(); err != nil {
			panic(inconclusive(err.Error()))
		}
		r.mustOpen(false)
	}
	r.c.Count("inspections", 1)
	r.shape = s.Shape()
}
