package main

import (
	"fmt"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"

	fbptree "vh/frozen/bptree"
	fhashmap "vh/frozen/hashmap"
)

// KV is what both dictionaries offer.
type KV interface {
	Set(key []byte, value []byte, returnReplacedValue bool) []byte
	SetIfExists(key []byte, value []byte, returnReplacedValue bool) ([]byte, bool)
	SetIfNotExists(key []byte, value []byte, returnPresentValue bool) ([]byte, bool)
	Clear(key []byte, returnRemovedValue bool) ([]byte, bool)
	Test(key []byte, returnPresentValue bool) ([]byte, bool)
}

// Store is a dictionary under test: one of
//
//	od   OrderedDict    bpt  BPTree on a file storage of its own
//	dict Dict           hm   HashMap on a file storage of its own
//
// or one of the copies kept of the code as it was (fbpt and fhm).
type Store struct {
	Kind string
	Path string
	od   *plainkv.OrderedDict
	d    *plainkv.Dict
	fs   *fsm.FileStorage
	bt   *bptree.BPTree
	hm   *hashmap.HashMap
	fbt  *fbptree.BPTree
	fhm  *fhashmap.HashMap
	fcur map[*Cursor]*fhashmap.Cursor
	open bool
}

func (s *Store) Ordered() bool { return s.Kind == "od" || s.Kind == "bpt" || s.Kind == "fbpt" }

// Open opens (or creates) the store.
func (s *Store) Open(create bool) error {
	switch s.Kind {
	case "od":
		od, err := plainkv.OpenOrderedDict(s.Path, create)
		if err != nil {
			return err
		}
		s.od = od
	case "dict":
		d, err := plainkv.OpenDict(s.Path, create)
		if err != nil {
			return err
		}
		s.d = d
	case "bpt", "hm", "fbpt", "fhm":
		fs := new(fsm.FileStorage).Init()
		if err := fs.Open(s.Path, create); err != nil {
			return err
		}
		s.fs = fs
		info := fs.PrimarySpace()
		switch s.Kind {
		case "fbpt":
			s.fbt = new(fbptree.BPTree).Init(fs)
			if info < 0 {
				s.fbt.Create()
			} else {
				s.fbt.Load(info)
			}
		case "fhm":
			s.fcur = map[*Cursor]*fhashmap.Cursor{}
			s.fhm = new(fhashmap.HashMap).Init(fs)
			if info < 0 {
				s.fhm.Create()
			} else {
				s.fhm.Load(info)
			}
		case "bpt":
			s.bt = new(bptree.BPTree).Init(fs)
			if info < 0 {
				s.bt.Create()
			} else {
				s.bt.Load(info)
			}
		case "hm":
			s.hm = new(hashmap.HashMap).Init(fs)
			if info < 0 {
				s.hm.Create()
			} else {
				s.hm.Load(info)
			}
		}
	default:
		panic("store kind " + s.Kind)
	}
	s.open = true
	return nil
}

// Close closes the store.
func (s *Store) Close() error {
	s.open = false
	switch s.Kind {
	case "od":
		return s.od.Close()
	case "dict":
		return s.d.Close()
	case "bpt":
		s.fs.SetPrimarySpace(s.bt.Store())
	case "hm":
		s.fs.SetPrimarySpace(s.hm.Store())
	case "fbpt":
		s.fs.SetPrimarySpace(s.fbt.Store())
	case "fhm":
		s.fs.SetPrimarySpace(s.fhm.Store())
	}
	return s.fs.Close()
}

// Op kinds.
const (
	opSet = iota
	opSetIfExists
	opSetIfNotExists
	opClear
	opTest
	numOps
)

var opNames = [...]string{"Set", "SetIfExists", "SetIfNotExists", "Clear", "Test"}

// Apply performs an operation. ok is what the API tells: for Set of a
// dictionary, which doesn't tell, it is -1.
func (s *Store) Apply(op int, k, v []byte, ret bool) (out []byte, ok int) {
	var b bool
	switch s.Kind {
	case "od", "dict":
		var kv KV
		if s.Kind == "od" {
			kv = s.od
		} else {
			kv = s.d
		}
		switch op {
		case opSet:
			return kv.Set(k, v, ret), -1
		case opSetIfExists:
			out, b = kv.SetIfExists(k, v, ret)
		case opSetIfNotExists:
			out, b = kv.SetIfNotExists(k, v, ret)
		case opClear:
			out, b = kv.Clear(k, ret)
		case opTest:
			out, b = kv.Test(k, ret)
		}
	case "bpt":
		switch op {
		case opSet:
			out, b = s.bt.AddOrUpdateRecord(k, v, ret)
		case opSetIfExists:
			out, b = s.bt.UpdateRecord(k, v, ret)
		case opSetIfNotExists:
			out, b = s.bt.AddRecord(k, v, ret)
		case opClear:
			out, b = s.bt.DeleteRecord(k, ret)
		case opTest:
			out, b = s.bt.HasRecord(k, ret)
		}
	case "hm":
		switch op {
		case opSet:
			out, b = s.hm.AddOrUpdateItem(k, v, ret)
		case opSetIfExists:
			out, b = s.hm.UpdateItem(k, v, ret)
		case opSetIfNotExists:
			out, b = s.hm.AddItem(k, v, ret)
		case opClear:
			out, b = s.hm.DeleteItem(k, ret)
		case opTest:
			out, b = s.hm.HasItem(k, ret)
		}
	case "fbpt":
		switch op {
		case opSet:
			out, b = s.fbt.AddOrUpdateRecord(k, v, ret)
		case opSetIfExists:
			out, b = s.fbt.UpdateRecord(k, v, ret)
		case opSetIfNotExists:
			out, b = s.fbt.AddRecord(k, v, ret)
		case opClear:
			out, b = s.fbt.DeleteRecord(k, ret)
		case opTest:
			out, b = s.fbt.HasRecord(k, ret)
		}
	case "fhm":
		switch op {
		case opSet:
			out, b = s.fhm.AddOrUpdateItem(k, v, ret)
		case opSetIfExists:
			out, b = s.fhm.UpdateItem(k, v, ret)
		case opSetIfNotExists:
			out, b = s.fhm.AddItem(k, v, ret)
		case opClear:
			out, b = s.fhm.DeleteItem(k, ret)
		case opTest:
			out, b = s.fhm.HasItem(k, ret)
		}
	}
	if b {
		return out, 1
	}
	return out, 0
}

// Range returns an iterator; nil bounds mean the very ends.
func (s *Store) Range(asc bool, lo, hi []byte) bptree.Iterator {
	if s.Kind == "od" {
		if asc {
			return s.od.RangeAsc(lo, hi)
		}
		return s.od.RangeDesc(lo, hi)
	}
	if s.Kind == "fbpt" {
		if asc {
			return frozenIter{s.fbt.SearchForward(frozenEnd(lo), frozenEnd(hi))}
		}
		return frozenIter{s.fbt.SearchBackward(frozenEnd(lo), frozenEnd(hi))}
	}
	if asc {
		return s.bt.SearchForward(lo, hi)
	}
	return s.bt.SearchBackward(lo, hi)
}

// frozenEnd is the end of a range for the old code.
func frozenEnd(b []byte) []byte {
	if len(b) > 0 && &b[0] == &bptree.MinKey[0] {
		return fbptree.MinKey
	}
	if len(b) > 0 && &b[0] == &bptree.MaxKey[0] {
		return fbptree.MaxKey
	}
	return b
}

type frozenIter struct{ fbptree.Iterator }

func (fi frozenIter) Advance() bptree.Iterator {
	fi.Iterator.Advance()
	return fi
}

// Cursor is the cursor of both hash kinds.
type Cursor = plainkv.DictCursor

func (s *Store) Scan(c *Cursor) ([]byte, []byte, bool) {
	if s.Kind == "dict" {
		return s.d.Scan(c)
	}
	if s.Kind == "fhm" {
		f := s.fcur[c]
		if f == nil {
			f = &fhashmap.Cursor{}
			s.fcur = map[*Cursor]*fhashmap.Cursor{c: f}
		}
		return s.fhm.FetchItem(f)
	}
	return s.hm.FetchItem(c)
}

// Shape is what a store tells about itself.
type Shape struct {
	Height, Leafs, NonLeafs int // ordered kinds
	Dirs, Slots             int // hash kinds
	Count, Payload          int
}

func (s *Store) Shape() Shape {
	switch s.Kind {
	case "od":
		st := s.od.Stats()
		return Shape{Height: st.BPTreeHeight, Leafs: st.NumberOfBPTreeLeafs, NonLeafs: st.NumberOfBPTreeNonLeafs,
			Count: st.NumberOfBPTreeRecords, Payload: st.PayloadSize}
	case "bpt":
		return Shape{Height: s.bt.Height(), Leafs: s.bt.NumberOfLeafs(), NonLeafs: s.bt.NumberOfNonLeafs(),
			Count: s.bt.NumberOfRecords(), Payload: s.bt.PayloadSize()}
	case "fbpt":
		return Shape{Height: s.fbt.Height(), Leafs: s.fbt.NumberOfLeafs(), NonLeafs: s.fbt.NumberOfNonLeafs(),
			Count: s.fbt.NumberOfRecords(), Payload: s.fbt.PayloadSize()}
	case "fhm":
		return Shape{Dirs: s.fhm.NumberOfSlotDirs(), Slots: s.fhm.NumberOfSlots(), Count: s.fhm.NumberOfItems(), Payload: s.fhm.PayloadSize()}
	case "dict":
		st := s.d.Stats()
		return Shape{Dirs: st.NumberOfHashSlotDirs, Slots: st.NumberOfHashSlots, Count: st.NumberOfHashItems, Payload: st.PayloadSize}
	case "hm":
		return Shape{Dirs: s.hm.NumberOfSlotDirs(), Slots: s.hm.NumberOfSlots(), Count: s.hm.NumberOfItems(), Payload: s.hm.PayloadSize()}
	}
	panic("store kind")
}

// FSM returns the stats of the file storage.
func (s *Store) FSM() fsm.Stats {
	switch s.Kind {
	case "od":
		return s.od.Stats().FSM
	case "dict":
		return s.d.Stats().FSM
	}
	return s.fs.Stats()
}

func (sh Shape) String() string {
	if sh.Height > 0 {
		return fmt.Sprintf("height=%d leafs=%d nonleafs=%d count=%d payload=%d", sh.Height, sh.Leafs, sh.NonLeafs, sh.Count, sh.Payload)
	}
	return fmt.Sprintf("dirs=%d slots=%d count=%d payload=%d", sh.Dirs, sh.Slots, sh.Count, sh.Payload)
}
