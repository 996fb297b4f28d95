package main

import (
	"encoding/binary"
	"fmt"
)

// Keys are drawn from pools: pool index -> key. Classes aim at what the two
// data structures treat differently: the sizes at which keys and values
// overflow out of pages (257/129 bytes, with prefixes of 249/121), the size up
// to which a hash sum isn't kept (24), what hashes to the same slot, what
// differs only behind a long common prefix, and what orders before or after
// everything else.

var keyClasses = []string{
	"tiny", "num", "rand8", "bound", "prefix", "chain", "binary", "long",
	"huge", "sentinel", "skew", "collide", "mixed", "short24", "words", "max256", "ext", "bands", "deep",
}

// collisions are pairs of 8-byte strings (little-endian) with the same FNV-1a-64.
var collisions = [][2]uint64{
	{0xc4c9bc2767488efe, 0xef9fa8894215bf22},
	{0x9b8a349055dd1407, 0x88300f93fd535b31},
	{0x0c58b07210ca7772, 0x83693c95748eff7d},
	{0xef256ecf6dd5e887, 0x7f7e8e589f0d0fd8},
}

// keyPool makes n distinct keys (fewer if the class has fewer).
func keyPool(class string, n int, rng *Rng) [][]byte {
	seen := make(map[string]bool, n)
	keys := make([][]byte, 0, n)
	add := func(k []byte) {
		if !seen[string(k)] {
			seen[string(k)] = true
			keys = append(keys, k)
		}
	}
	salt := rng.U64()
	for i := 0; len(keys) < n && i < 20*n+1000; i++ {
		add(makeKey(class, i, n, rng, salt))
	}
	return keys
}

var wordStems = []string{"app", "bar", "con", "dis", "ex", "foo", "inter", "pre", "sub", "trans", "un", "zoo"}

func makeKey(class string, i, n int, rng *Rng, salt uint64) []byte {
	switch class {
	case "tiny":
		return rng.Bytes(rng.Pick(0, 1, 1, 2, 2, 2, 2, 2, 3))
	case "num":
		return []byte(fmt.Sprintf("%09d", i))
	case "rand8":
		return rng.Bytes(8)
	case "words":
		s := ""
		for j := rng.Range(1, 4); j > 0; j-- {
			s += wordStems[rng.Intn(len(wordStems))]
		}
		return []byte(s + fmt.Sprint(rng.Intn(n)))
	case "bound":
		sizes := []int{0, 1, 2, 23, 24, 25, 26, 100, 127, 128, 129, 247, 248, 249, 250, 251, 255, 256, 257, 258, 259, 260, 300, 376, 377, 378, 400}
		k := rng.Bytes(sizes[rng.Intn(len(sizes))])
		for j := range k {
			if j < 250 && j > 1 {
				k[j] = 'a' + k[j]%2
			}
		}
		return k
	case "prefix":
		// the keys share a prefix that ends around where keys overflow
		pl := rng.Range(236, 262)
		k := make([]byte, pl)
		for j := range k {
			k[j] = 'p'
		}
		return append(k, rng.Bytes(rng.Range(0, 4))...)
	case "chain":
		// prefixes of one long string
		r := &Rng{salt}
		return r.Bytes(i)
	case "binary":
		k := rng.Bytes(rng.Range(1, 12))
		for j := range k {
			switch k[j] % 4 {
			case 0:
				k[j] = 0
			case 1:
				k[j] = 0xff
			case 2:
				k[j] = 0x80
			}
		}
		return k
	case "long":
		k := rng.Bytes(rng.Pick(257, 257, 258, 259, 300, 400, 512, 700))
		k[0] = byte('a' + int(k[0])%3)
		return k
	case "max256":
		// the largest keys kept in pages
		return rng.Bytes(rng.Pick(254, 255, 256, 256, 256, 257))
	case "ext":
		// short keys and, right behind each, the same with a long tail: which
		// one a separator is changes its size a lot
		r := NewRng(salt, uint64(rng.Intn(n*2/3+1)))
		k := r.Bytes(r.Range(2, 6))
		if rng.Chance(1, 2) {
			return k
		}
		return append(k, r.Bytes(r.Pick(200, 250-len(k), 256-len(k), 257-len(k), 300))...)
	case "bands":
		// stretches of neighbours that are all short or all long, 2 to 64 of them:
		// half of the keys of a page needn't be half of its bytes
		bits := 1 + uint(salt>>8)%6
		k := rng.Bytes(rng.Range(4, 6))
		if (uint64(k[0])>>(8-bits)+salt)&1 == 0 {
			return k
		}
		return append(k, rng.Bytes(250-rng.Pick(0, 0, 1, 30))...)
	case "huge":
		return rng.Bytes(rng.Pick(5000, 16383+249, 16384+249, 16385+249, 65535, 65536, 70000, 100000))
	case "vast":
		return rng.Bytes(rng.Pick(1<<20-249, 1<<20, 1<<21-1+249, 1<<21+249, 1<<21+250, 3<<20, 1<<24+250))
	case "deep":
		// keys that only differ far behind the prefix kept in the page, or not
		// but for their lengths
		r := &Rng{salt}
		return append(r.Bytes(rng.Pick(249, 256, 257, 300, 1000, 4096, 9000)), rng.Bytes(rng.Pick(0, 1, 1, 2, 2, 3))...)
	case "sentinel":
		base := []string{"MIN_KEY", "MAX_KEY", "MIN_KE", "MAX_KE", "MIN_KEY\x00", "MAX_KEY\x00", "MIN_KEYS", "MAX_KEYS", "", "\x00", "\xff", "\xff\xff", "M", "N", "L"}
		if i < len(base) {
			return []byte(base[i])
		}
		return append([]byte(base[rng.Intn(len(base))]), rng.Bytes(rng.Range(0, 3))...)
	case "skew":
		// the same low bits of the hash sum: one slot and its split images
		for {
			k := rng.Bytes(rng.Pick(8, 16, 24, 25, 40))
			if fnv64a(k)&0xff == salt&0xff {
				return k
			}
		}
	case "collide":
		p := collisions[rng.Intn(len(collisions))]
		k := make([]byte, 8, 64)
		binary.LittleEndian.PutUint64(k, p[i&1])
		// a common suffix keeps the sums equal
		r := NewRng(salt, uint64(rng.Intn(n/2+1)))
		return append(k, r.Bytes(r.Pick(0, 8, 15, 16, 17, 18, 24, 40, 260))...)
	case "short24":
		return rng.Bytes(rng.Pick(22, 23, 24, 24, 25, 25, 26))
	case "mixed":
		c := []string{"tiny", "num", "rand8", "bound", "prefix", "binary", "long", "sentinel", "short24", "words"}
		return makeKey(c[rng.Intn(len(c))], i, n, rng, salt)
	}
	panic("key class " + class)
}

var valClasses = []string{"empty", "small", "page", "bound", "big", "huge", "mixed"}

func valSize(class string, rng *Rng) int {
	switch class {
	case "empty":
		return 0
	case "small":
		return rng.Range(0, 16)
	case "page":
		return rng.Range(0, 128)
	case "bound":
		return rng.Pick(0, 1, 8, 120, 121, 122, 127, 128, 128, 129, 129, 130, 131, 137, 247, 248, 249, 250, 256, 300)
	case "big":
		return rng.Pick(0, 129, 500, 1000, 4000, 4096, 8192, 10000)
	case "huge":
		return rng.Pick(0, 16383+121, 16384+121, 16385+121, 65000, 65535, 65536, 70000, 131072, 200000)
	case "vast":
		return rng.Pick(0, 1<<20-121, 1<<20, 1<<21-1+121, 1<<21+121, 1<<21+122, 5<<20, 1<<24+122)
	case "max128":
		return rng.Pick(126, 127, 128, 128, 128)
	case "mixed":
		switch rng.Intn(20) {
		case 0:
			return rng.Range(1000, 9000)
		case 1, 2, 3:
			return valSize("bound", rng)
		case 4, 5:
			return 0
		}
		return valSize("page", rng)
	}
	panic("value class " + class)
}

// makeValue makes a value of the given size that tells which write made it.
func makeValue(id uint64, size int) []byte {
	v := make([]byte, size)
	r := Rng{id * 0xD1342543DE82EF95}
	r.Fill(v)
	for i := 0; i < 6 && i < size; i++ {
		v[i] = byte(id >> (8 * uint(i)))
	}
	return v
}
