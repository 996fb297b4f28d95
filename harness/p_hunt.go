package main

import (
	"strings"

	"github.com/roy2220/fsm"
)

// A hunt looks at the pages of a tree in order to bring some of them, and
// their parents and siblings, close to the loads at which records and children
// are shifted, merged or split, so that a single operation sets off as much of
// that as possible at once. Where the loads are doesn't matter for what is
// right, only for what is run.

const (
	huntLeafUnder    = leafLoadMin + 1
	huntNonLeafUnder = nonLeafLoadMin + 1
)

// hnode is a page as a hunt sees it.
type hnode struct {
	parent *hnode
	addr   int64
	idx    int // in the parent
	depth  int
	load   int
	kids   []*hnode
	keys   []string // of a leaf
}

type hunter struct {
	r     *Runner
	root  *hnode
	nodes []*hnode // that aren't leafs
	leafs []*hnode
	cell  int // the largest key that is made
}

func cellSize(n, max int) int {
	if n > max {
		return max
	}
	return n
}

// peek reads what the pages look like.
func (h *hunter) peek() {
	h.root, h.nodes, h.leafs = nil, nil, nil
	h.r.inspect(func(fs *fsm.FileStorage, info int64) {
		b := fs.AccessSpace(info)
		h.root = h.node(fs, be64(b), 1, int(b[8]), nil, 0)
	})
	all := h.r.m.Sorted()
	for _, l := range h.leafs {
		n := len(l.keys)
		if n > len(all) {
			n = len(all)
		}
		l.keys, all = all[:n], all[n:]
	}
	step()
}

func (h *hunter) node(fs *fsm.FileStorage, addr int64, depth, height int, parent *hnode, idx int) *hnode {
	p := fs.AccessAlignedSpace(addr)
	x := &hnode{parent: parent, addr: addr, idx: idx, depth: depth}
	if depth == height {
		n := be32(p[16:])
		x.keys = make([]string, n)
		if n > 0 {
			x.load = n*recHead + pageSize - be32(p[leafHead:])
		}
		h.leafs = append(h.leafs, x)
		return x
	}
	n := be32(p)
	x.load = n*childHead + pageSize - be32(p[nodeHead:])
	h.nodes = append(h.nodes, x)
	for i := 0; i < n; i++ {
		x.kids = append(x.kids, h.node(fs, be64(p[nodeHead+i*childHead+4:]), depth+1, height, x, i))
	}
	return x
}

func (x *hnode) firstLeaf() *hnode {
	for x.kids != nil {
		x = x.kids[0]
	}
	return x
}

// sibling returns the page next to it under the same parent.
func (x *hnode) sibling(d int) *hnode {
	if x.parent == nil || x.idx+d < 0 || x.idx+d >= len(x.parent.kids) {
		return nil
	}
	return x.parent.kids[x.idx+d]
}

// between makes a key of the given size between two others.
func (h *hunter) between(lo, hi string, size int) (string, bool) {
	rng := h.r.rng
	cp := 0
	for cp < len(lo) && cp < len(hi) && lo[cp] == hi[cp] {
		cp++
	}
	for try := 0; try < 6; try++ {
		k := ""
		switch {
		case size > len(lo):
			k = lo + string(rng.Bytes(size-len(lo)))
			if try > 2 {
				k = lo + strings.Repeat("\x00", size-len(lo))
			}
		case size > cp:
			p := rng.Range(cp, size-1)
			if lo[p] == 0xff {
				continue
			}
			k = lo[:p] + string([]byte{lo[p] + 1}) + string(rng.Bytes(size-p-1))
		}
		if try == 5 && size > cp && len(hi) > size {
			k = hi[:size]
		}
		if k > lo && (k < hi || hi == "") {
			if _, ok := h.r.m.Get(k); !ok {
				return k, true
			}
		}
	}
	return "", false
}

func (h *hunter) valueLen(k string) int {
	v, _ := h.r.m.Get(k)
	return cellSize(len(v), valueInPage)
}

func (h *hunter) record(k string) int {
	return recHead + cellSize(len(k), keyInPage) + h.valueLen(k)
}

func (h *hunter) set(k string, size int) {
	h.r.id++
	h.r.do(opSet, []byte(k), makeValue(h.r.id, size), h.r.ret())
}

func (h *hunter) clear(k string) { h.r.do(opClear, []byte(k), nil, h.r.ret()) }

// setFirst replaces the first record of a leaf by one with a key of another
// size, which the separator takes on, and of the same size on the whole if it
// can be. It tells by how much the separator has grown.
func (h *hunter) setFirst(l *hnode, size int) int {
	if len(l.keys) < 3 {
		return 0
	}
	k := l.keys[0]
	old := cellSize(len(k), keyInPage)
	nk, ok := h.between(k, l.keys[1], size)
	if !ok {
		return 0
	}
	v := h.valueLen(k) + old - cellSize(size, keyInPage)
	if v < 0 {
		v = 0
	}
	if v > 128 {
		v = 128
	}
	add := recHead + cellSize(size, keyInPage) + v
	del := h.record(k)
	if l.load+add > leafLoadMax || l.load+add-del < huntLeafUnder {
		return 0
	}
	h.set(nk, v)
	h.clear(k)
	l.keys = append([]string{nk}, l.keys[1:]...)
	l.load += add - del
	return cellSize(size, keyInPage) - old
}

// tuneLeaf brings the load of a leaf to a number, leaving its first two
// records alone.
func (h *hunter) tuneLeaf(l *hnode, target int) {
	rng := h.r.rng
	if target < huntLeafUnder || target > leafLoadMax {
		return
	}
	keys := append([]string{}, l.keys...)
	for try := 0; try < 120 && l.load != target && len(keys) >= 5; try++ {
		d := target - l.load
		i := rng.Range(2, len(keys)-1)
		k := keys[i]
		v := h.valueLen(k)
		switch {
		case d < 0 && -d >= h.record(k):
			h.clear(k)
			l.load -= recHead + cellSize(len(k), keyInPage) + v
			keys = append(keys[:i], keys[i+1:]...)
		case d < 0 && v > 0:
			n := v + d
			if n < 0 {
				n = 0
			}
			h.set(k, n)
			l.load += n - v
		case d > 300 && i+1 < len(keys) && rng.Chance(2, 3):
			size := rng.Range(4, h.cell)
			nk, ok := h.between(k, keys[i+1], size)
			if !ok {
				continue
			}
			n := rng.Intn(129)
			if recHead+cellSize(size, keyInPage)+n > d {
				continue
			}
			h.set(nk, n)
			l.load += recHead + cellSize(size, keyInPage) + n
			keys = append(keys[:i+1], append([]string{nk}, keys[i+1:]...)...)
		case d > 0 && v < 128:
			n := v + d
			if n > 128 {
				n = 128
			}
			h.set(k, n)
			l.load += n - v
		}
	}
	l.keys = keys
	if l.load == target {
		h.r.c.Count("hunt.leafs.tuned", 1)
	}
}

// tuneNonLeaf brings the load of a non-leaf to a number by changing what its
// children, other than the one given, begin with.
func (h *hunter) tuneNonLeaf(x *hnode, target int, but int) {
	rng := h.r.rng
	if x == nil || len(x.kids) < 3 {
		return
	}
	for i, n := rng.Intn(len(x.kids)), 0; n < len(x.kids) && x.load != target; n++ {
		j := (i + n) % len(x.kids)
		if j == 0 || j == but {
			continue
		}
		l := x.kids[j].firstLeaf()
		if len(l.keys) < 3 {
			continue
		}
		old := cellSize(len(l.keys[0]), keyInPage)
		size := old + target - x.load
		if size > h.cell {
			size = h.cell
		}
		if size < 4 {
			size = rng.Range(4, 8)
		}
		if size != old {
			x.load += h.setFirst(l, size)
		}
	}
	if x.load == target {
		h.r.c.Count("hunt.nonleafs.tuned", 1)
	}
}

func (h *hunter) near(under, over int, slack int) int {
	switch h.r.rng.Intn(4) {
	case 0:
		return under + h.r.rng.Intn(slack)
	case 1:
		return over - h.r.rng.Intn(slack)
	case 2:
		return under + h.r.rng.Intn(4)
	default:
		return over - h.r.rng.Intn(4)
	}
}

func (h *hunter) nearNonLeaf() int { return h.near(huntNonLeafUnder, nonLeafLoadMax, 250) }

// attempt does one round.
func (h *hunter) attempt(inspect func()) {
	r, rng := h.r, h.r.rng
	h.peek()
	if len(h.nodes) == 0 || len(h.leafs) < 3 {
		r.phase("grow", 50)
		return
	}
	// the leaf, and the page that its separator is in
	p := h.nodes[rng.Intn(len(h.nodes))]
	if rng.Chance(1, 3) {
		p = h.nodes[rng.Intn((len(h.nodes)+9)/10)]
	}
	j := rng.Intn(len(p.kids))
	switch rng.Intn(4) {
	case 0:
		j = len(p.kids) - 1
	case 1:
		j = 1
	}
	l := p.kids[j].firstLeaf()
	if len(l.keys) < 6 {
		return
	}
	// what the separator is and what it becomes
	if rng.Chance(3, 4) {
		a, b := rng.Range(4, 12), h.cell-rng.Intn(12)
		if rng.Chance(1, 2) {
			a, b = b, a
		}
		h.setFirst(l, a)
		if nk, ok := h.between(l.keys[0], l.keys[1], b); ok && l.load+recHead+b <= leafLoadMax {
			h.set(nk, 0)
			l.load += recHead + b
			l.keys = append([]string{l.keys[0], nk}, l.keys[1:]...)
		}
	}
	// those beside it
	for _, d := range []int{-1, 1} {
		if s := l.sibling(d); s != nil && rng.Chance(1, 2) {
			h.tuneLeaf(s, h.near(huntLeafUnder, leafLoadMax, 300))
		}
	}
	// those above
	lp := l.parent
	for x, but := p, j; x != nil; x, but = x.parent, x.idx {
		for _, d := range []int{-1, 1} {
			if s := x.sibling(d); s != nil && rng.Chance(1, 2) {
				h.tuneNonLeaf(s, h.nearNonLeaf(), -1)
			}
		}
		if x == p || rng.Chance(1, 2) {
			h.tuneNonLeaf(x, h.nearNonLeaf(), but)
		}
	}
	if lp != p && rng.Chance(1, 2) {
		h.tuneNonLeaf(lp, h.nearNonLeaf(), l.idx)
	}
	// the leaf itself, and then what it is all for
	first := h.record(l.keys[0])
	under := rng.Chance(3, 4)
	if under {
		h.tuneLeaf(l, huntLeafUnder+rng.Intn(first))
	} else {
		h.tuneLeaf(l, leafLoadMax-rng.Intn(100))
	}
	n := rng.Range(1, 4)
	for i := 0; i < n && len(l.keys) > 4; i++ {
		x := rng.Intn(10)
		if i == 0 && under && x < 8 {
			x = 0
		}
		switch {
		case x < 4:
			h.clear(l.keys[0])
			l.keys = l.keys[1:]
		case x < 6:
			k := rng.Range(1, len(l.keys)-1)
			h.clear(l.keys[k])
			l.keys = append(append([]string{}, l.keys[:k]...), l.keys[k+1:]...)
		case x < 8:
			k := rng.Intn(len(l.keys) - 1)
			if nk, ok := h.between(l.keys[k], l.keys[k+1], rng.Range(4, h.cell)); ok {
				h.set(nk, rng.Pick(0, 64, 128, 128, 129))
			}
		default:
			h.set(l.keys[rng.Intn(len(l.keys))], rng.Pick(0, 128, 129))
		}
		inspect()
	}
	r.c.Count("hunts", 1)
}

// press makes a non-leaf that isn't close to the root give children to, or
// take some from, the page beside it, while their parent is so full or empty
// that it depends on the length of the new separator whether it must then be
// seen to as well.
func (h *hunter) press(inspect func()) {
	rng := h.r.rng
	h.peek()
	var xs, deep []*hnode
	for _, x := range h.nodes {
		if x.parent == nil || len(x.kids) < 5 || len(x.parent.kids) < 2 {
			continue
		}
		xs = append(xs, x)
		if x.depth >= 3 {
			deep = append(deep, x)
		}
	}
	if len(deep) > 0 && rng.Chance(7, 8) {
		xs = deep
	}
	if len(xs) == 0 {
		h.attempt(inspect)
		return
	}
	x := xs[rng.Intn(len(xs))]
	d := rng.Pick(-1, 1)
	s := x.sibling(d)
	if s == nil {
		d = -d
		s = x.sibling(d)
	}
	mid := (huntNonLeafUnder + nonLeafLoadMax) / 2
	over := x.load > mid
	if rng.Chance(1, 4) {
		over = !over
	}
	// what is moved, by the loads as they are going to be
	load, sload := nonLeafLoadMax, rng.Range(huntNonLeafUnder+300, mid)
	if !over {
		load, sload = huntNonLeafUnder, rng.Range(mid, nonLeafLoadMax)
	}
	h.tuneNonLeaf(s, sload, -1)
	if o := x.sibling(-d); o != nil && rng.Chance(3, 4) {
		// nothing is moved that way
		h.tuneNonLeaf(o, map[bool]int{true: nonLeafLoadMax, false: huntNonLeafUnder}[over]-rng.Intn(30), -1)
	}
	from, end := x, d
	if !over {
		from, end = s, -d
	}
	b := len(from.kids) - 1
	if end < 0 {
		b = 1
	}
	for moved := 0; b > 1 && b < len(from.kids)-1; b -= end {
		ls := from.kids[b].firstLeaf()
		if len(ls.keys) == 0 {
			return
		}
		moved += childHead + cellSize(len(ls.keys[0]), keyInPage)
		if 2*moved >= load-sload && 2*moved >= sload-load {
			break
		}
	}
	// the separator now, and those that may take its place
	now, then := rng.Range(4, 12), h.cell-rng.Intn(12)
	full := x.parent.load > mid
	if rng.Chance(1, 4) {
		full = !full
	}
	if !full {
		now, then = then, now
	}
	right := x
	if d > 0 {
		right = s
	}
	h.setFirst(right.firstLeaf(), now)
	for k := b - 2; k <= b+2; k++ {
		if k >= 1 && k < len(from.kids) {
			from.load += h.setFirst(from.kids[k].firstLeaf(), then)
		}
	}
	// the pages themselves
	room := rng.Range(1, 60)
	if over {
		h.tuneNonLeaf(x, load-room, -1)
	} else {
		h.tuneNonLeaf(x, load+room, -1)
	}
	if x = h.again(x); x == nil {
		return
	}
	target := nonLeafLoadMax - rng.Intn(h.cell)
	if !full {
		target = huntNonLeafUnder + rng.Intn(h.cell)
	}
	if x.parent.parent != nil {
		h.tuneNonLeaf(x.parent, target, x.idx+(d+1)/2)
	}
	// and what it is all for
	if x = h.again(x); x == nil {
		return
	}
	near := over && x.load > nonLeafLoadMax-100 || !over && x.load < huntNonLeafUnder+100
	tight := x.parent.load < huntNonLeafUnder+h.cell || x.parent.load > nonLeafLoadMax-h.cell
	for try := 0; try < 12; try++ {
		k := rng.Range(1, len(x.kids)-1)
		if try < 10 && over && k >= b-2 && k <= b+2 {
			continue
		}
		l := x.kids[k].firstLeaf()
		if len(l.keys) < 3 {
			continue
		}
		n := cellSize(len(l.keys[0]), keyInPage)
		if over {
			n = rng.Range(n+1, n+2*room+60)
		} else {
			n = rng.Range(n-2*room-60, n-1)
		}
		if n < 4 || n > h.cell {
			continue
		}
		was := x.load
		x.load += h.setFirst(l, n)
		inspect()
		if x.load != was && (over && x.load > nonLeafLoadMax || !over && x.load < huntNonLeafUnder) {
			if near && tight && x.parent.parent != nil {
				h.r.c.Count("hunt.pressed", 1)
			}
			break
		}
	}
	h.r.c.Count("hunts", 1)
}

// twice has one removal change two separators of a page, which is moved
// children from or to, or merged with the page beside it, by the first of them
// and so may well need that again by the second, its place then being another.
// The first is that of the leaf removed from, the second that of a leaf beside
// it, one of which gives records to the other.
func (h *hunter) twice(inspect func()) {
	rng := h.r.rng
	h.peek()
	var xs []*hnode
	for _, x := range h.nodes {
		if x.parent != nil && len(x.kids) >= 5 && len(x.parent.kids) >= 2 {
			xs = append(xs, x)
		}
	}
	if len(xs) == 0 {
		h.attempt(inspect)
		return
	}
	x := xs[rng.Intn(len(xs))]
	d := rng.Pick(1, 1, -1)
	s := x.sibling(d)
	if s == nil {
		d = -d
		s = x.sibling(d)
	}
	if len(s.kids) < 5 {
		return
	}
	over := rng.Chance(2, 3)
	// the leaf, close to the end that is moved
	k := len(x.kids) - 1 - rng.Pick(0, 0, 0, 1, 2)
	if d < 0 {
		k = rng.Pick(1, 1, 2, 3)
	}
	if !over && rng.Chance(1, 2) {
		k = rng.Range(1, len(x.kids)-1)
	}
	l := x.kids[k].firstLeaf()
	// the leaf beside it: to the right, or to the left if there won't be one
	// under the same page
	var nb *hnode
	right := true
	switch {
	case l.parent != x:
		nb = l.sibling(1)
	case d > 0 && k == len(x.kids)-1:
		nb = s.kids[0]
	case d < 0:
		right = false
		nb = x.kids[k-1]
	default:
		nb = x.kids[k+1]
	}
	if nb == nil || nb.kids != nil || len(l.keys) < 6 || len(nb.keys) < 6 {
		return
	}
	short, long := rng.Range(4, 40), h.cell-rng.Intn(12)
	if !over {
		short, long = long, short
	}
	mid := long
	if !right {
		mid = (short + long) / 2
	}
	insert := func(y *hnode, i, size int) {
		if i < 0 || i+1 >= len(y.keys) {
			return
		}
		if nk, ok := h.between(y.keys[i], y.keys[i+1], size); ok && y.load+recHead+size <= leafLoadMax {
			h.set(nk, 0)
			y.load += recHead + cellSize(size, keyInPage)
			y.keys = append(append(append([]string{}, y.keys[:i+1]...), nk), y.keys[i+1:]...)
		}
	}
	h.setFirst(l, short)
	insert(l, 0, mid)
	if right {
		h.setFirst(nb, short)
		for i, n := 0, rng.Range(1, 4); i < n; i++ {
			insert(nb, i, long)
		}
	} else {
		for i, n := 0, rng.Range(1, 4); i < n; i++ {
			insert(nb, len(nb.keys)-2-i, long)
		}
	}
	// few records are given, or more
	h.tuneLeaf(l, huntLeafUnder+rng.Intn(h.record(l.keys[0])))
	if rng.Chance(2, 3) {
		h.tuneLeaf(nb, rng.Range(huntLeafUnder+200, huntLeafUnder+1500))
	}
	if rng.Chance(1, 5) {
		h.tuneLeaf(nb, huntLeafUnder+rng.Intn(100)) // merged
	}
	at := l.keys[0]
	find := func() bool {
		if x = h.again(x); x == nil {
			return false
		}
		if s = x.sibling(d); s == nil || k >= len(x.kids) {
			return false
		}
		l = x.kids[k].firstLeaf()
		return len(l.keys) > 1 && l.keys[0] == at
	}
	if !find() {
		return
	}
	grow := cellSize(len(l.keys[1]), keyInPage) - cellSize(len(at), keyInPage)
	if grow < 0 {
		grow = -grow
	}
	but := k
	if rng.Chance(2, 3) {
		sep := x
		if d > 0 {
			sep = s
		}
		n := childHead
		if f := sep.firstLeaf(); len(f.keys) > 0 {
			n += cellSize(len(f.keys[0]), keyInPage)
		}
		if over {
			h.tuneNonLeaf(s, nonLeafLoadMax-n-rng.Intn(h.cell), -1)
		} else if rng.Chance(1, 2) {
			h.tuneNonLeaf(s, huntNonLeafUnder+rng.Intn(60), -1)
		} else {
			h.tuneNonLeaf(s, huntNonLeafUnder+n+rng.Intn(h.cell), -1)
		}
	}
	if over {
		h.tuneNonLeaf(x, nonLeafLoadMax-rng.Intn(grow+1), but)
	} else {
		h.tuneNonLeaf(x, huntNonLeafUnder+rng.Intn(grow+1), but)
	}
	if o := x.sibling(-d); o != nil && rng.Chance(3, 4) {
		h.tuneNonLeaf(o, map[bool]int{true: nonLeafLoadMax, false: huntNonLeafUnder}[over]-rng.Intn(30), -1)
	}
	if lp := l.parent; lp != x && rng.Chance(3, 4) {
		h.tuneNonLeaf(lp, h.nearNonLeaf(), l.idx)
	}
	if !find() {
		return
	}
	h.clear(l.keys[0])
	inspect()
	h.r.c.Count("hunt.twice", 1)
	h.r.c.Count("hunts", 1)
}

// again looks anew and finds a page seen before, if it still is one that can
// be pressed.
func (h *hunter) again(x *hnode) *hnode {
	h.peek()
	for _, y := range h.nodes {
		if y.addr == x.addr && y.parent != nil && len(y.kids) >= 5 {
			return y
		}
	}
	return nil
}

// hunt does so many rounds, keeping the tree about as large as it is.
func (r *Runner) hunt(n int, press bool, inspect func()) {
	h := &hunter{r: r, cell: r.rng.Pick(256, 256, 257, 300, 120)}
	size := r.m.Len()
	for i := 0; i < n; i++ {
		if press && i%4 == 3 || i%6 == 4 {
			h.twice(inspect)
		} else if press || i%6 == 5 {
			h.press(inspect)
		} else {
			h.attempt(inspect)
		}
		for r.m.Len() > size+size/8 {
			k, _ := r.pickLive()
			r.do(opClear, k, nil, r.ret())
		}
		for i := 0; r.m.Len() < size-size/8 && i < size; i++ {
			r.set(opSetIfNotExists, r.pick())
		}
	}
}
