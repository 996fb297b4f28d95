package main

import "sort"

// Model is the reference map: what a dictionary must hold.
type Model struct {
	m       map[string]string
	live    []string // in no order, for picking
	pos     map[string]int
	keys    sortedKeys
	gone    map[string]string // what some deleted keys held last
	payload int
	overs   int // how many keys and values don't fit into pages
	overLen int // how long the parts are that don't
}

func (m *Model) over(k, v string, d int) {
	if n := len(k); n >= keyInPage {
		m.overs += d
		m.overLen += d * (n - keyPrefix)
	}
	if n := len(v); n >= valueInPage {
		m.overs += d
		m.overLen += d * (n - valuePrefix)
	}
}

func NewModel() *Model {
	return &Model{m: map[string]string{}, pos: map[string]int{}, gone: map[string]string{}}
}

func (m *Model) Len() int { return len(m.m) }

func (m *Model) Get(k string) (string, bool) {
	v, ok := m.m[k]
	return v, ok
}

func (m *Model) Put(k, v string) {
	old, ok := m.m[k]
	if ok {
		m.payload += len(v) - len(old)
		m.over(k, old, -1)
	} else {
		m.payload += len(k) + len(v)
		m.pos[k] = len(m.live)
		m.live = append(m.live, k)
		m.keys.insert(k)
	}
	m.m[k] = v
	m.over(k, v, 1)
}

func (m *Model) Del(k string) bool {
	v, ok := m.m[k]
	if !ok {
		return false
	}
	m.payload -= len(k) + len(v)
	m.over(k, v, -1)
	if len(m.gone) >= 1<<12 {
		m.gone = map[string]string{}
	}
	m.gone[k] = v
	delete(m.m, k)
	i, n := m.pos[k], len(m.live)-1
	m.live[i] = m.live[n]
	m.pos[m.live[i]] = i
	m.live = m.live[:n]
	delete(m.pos, k)
	m.keys.remove(k)
	return true
}

func (m *Model) Clone() *Model {
	c := NewModel()
	for _, k := range m.live {
		c.Put(k, m.m[k])
	}
	return c
}

func (m *Model) Sorted() []string { return m.keys.all() }

// sortedKeys is a sorted list kept in chunks.
type sortedKeys struct {
	chunks [][]string
	n      int
}

const chunkMax = 512

func (s *sortedKeys) chunk(k string) int {
	// the last chunk whose first key is <= k
	i := sort.Search(len(s.chunks), func(i int) bool { return s.chunks[i][0] > k }) - 1
	if i < 0 {
		i = 0
	}
	return i
}

func (s *sortedKeys) insert(k string) {
	s.n++
	if len(s.chunks) == 0 {
		s.chunks = [][]string{append(make([]string, 0, chunkMax), k)}
		return
	}
	i := s.chunk(k)
	c := s.chunks[i]
	j := sort.SearchStrings(c, k)
	c = append(c, "")
	copy(c[j+1:], c[j:])
	c[j] = k
	s.chunks[i] = c
	if len(c) >= chunkMax {
		h := len(c) / 2
		right := append(make([]string, 0, chunkMax), c[h:]...)
		s.chunks[i] = c[:h:h]
		s.chunks = append(s.chunks, nil)
		copy(s.chunks[i+2:], s.chunks[i+1:])
		s.chunks[i+1] = right
	}
}

func (s *sortedKeys) remove(k string) {
	i := s.chunk(k)
	c := s.chunks[i]
	j := sort.SearchStrings(c, k)
	if j >= len(c) || c[j] != k {
		panic("harness: key to remove isn't in the model")
	}
	copy(c[j:], c[j+1:])
	s.chunks[i] = c[:len(c)-1]
	s.n--
	if len(s.chunks[i]) == 0 {
		s.chunks = append(s.chunks[:i], s.chunks[i+1:]...)
	}
}

func (s *sortedKeys) first() (string, bool) {
	if s.n == 0 {
		return "", false
	}
	return s.chunks[0][0], true
}

func (s *sortedKeys) last() (string, bool) {
	if s.n == 0 {
		return "", false
	}
	c := s.chunks[len(s.chunks)-1]
	return c[len(c)-1], true
}

// from returns up to limit keys >= lo in order.
func (s *sortedKeys) from(lo string, limit int) []string {
	var out []string
	if s.n == 0 {
		return nil
	}
	for i := s.chunk(lo); i < len(s.chunks) && len(out) < limit; i++ {
		c := s.chunks[i]
		for j := sort.SearchStrings(c, lo); j < len(c) && len(out) < limit; j++ {
			out = append(out, c[j])
		}
	}
	return out
}

// between returns the keys in [lo, hi] in order.
func (s *sortedKeys) between(lo, hi string) []string {
	var out []string
	if s.n == 0 || lo > hi {
		return nil
	}
	for i := s.chunk(lo); i < len(s.chunks); i++ {
		c := s.chunks[i]
		if c[0] > hi {
			break
		}
		for j := sort.SearchStrings(c, lo); j < len(c); j++ {
			if c[j] > hi {
				return out
			}
			out = append(out, c[j])
		}
	}
	return out
}

func (s *sortedKeys) all() []string {
	out := make([]string, 0, s.n)
	for _, c := range s.chunks {
		out = append(out, c...)
	}
	return out
}
