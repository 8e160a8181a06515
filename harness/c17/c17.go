package c17

import (
	"github.com/ndau/ndaumath/pkg/bitset256"
	"github.com/ndau/ndaumath/verifh/vh"
)

type set = bitset256.Bitset256

func anySet(n string) *set {
	return &set{vh.U64(n + "0"), vh.U64(n + "1"), vh.U64(n + "2"), vh.U64(n + "3")}
}

// has is the reference membership test on the documented layout
// (little-endian words: bit 0 is bit 0 of word 0).
func has(b *set, i byte) bool {
	return b[i/64]>>(i%64)&1 == 1
}

// CheckPoint: Set/Clear/Toggle/Get of index i against an arbitrary index j.
func CheckPoint() {
	b := anySet("b")
	i, j := vh.U8("i"), vh.U8("j")
	was := has(b, j)
	vh.Assert("Get reads membership", b.Get(j) == was)
	s := *b
	r := s.Set(i)
	vh.Assert("Set returns receiver", r == &s)
	vh.Assert("Set", s.Get(j) == (was || i == j) && has(&s, j) == (was || i == j))
	c := *b
	r = c.Clear(i)
	vh.Assert("Clear returns receiver", r == &c)
	vh.Assert("Clear", c.Get(j) == (was && i != j))
	t := *b
	r = t.Toggle(i)
	vh.Assert("Toggle returns receiver", r == &t)
	vh.Assert("Toggle", t.Get(j) == (was != (i == j)))
	vh.Observe("set", s[0]^s[1]^s[2]^s[3])
}

// CheckNew: New builds exactly the listed members.
func CheckNew() {
	i, j, k, q := vh.U8("i"), vh.U8("j"), vh.U8("k"), vh.U8("q")
	b := bitset256.New(i, j, k)
	vh.Assert("New", b.Get(q) == (q == i || q == j || q == k))
	e := bitset256.New()
	vh.Assert("New empty", !e.Get(q) && e.Count() == 0 && len(e.Indices()) == 0)
	vh.Observe("has", b.Get(q))
}

// CheckAlgebra: union, intersection, subset and equality, membership-wise.
func CheckAlgebra() {
	a, b := anySet("a"), anySet("b")
	a0, b0 := *a, *b
	q := vh.U8("q")
	u, n := a.Union(b), a.Intersect(b)
	vh.Assert("Union", u.Get(q) == (a.Get(q) || b.Get(q)))
	vh.Assert("Intersect", n.Get(q) == (a.Get(q) && b.Get(q)))
	same := a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]
	sub := a[0]&^b[0] == 0 && a[1]&^b[1] == 0 && a[2]&^b[2] == 0 && a[3]&^b[3] == 0
	vh.Assert("Equals", a.Equals(b) == same)
	vh.Assert("IsSubsetOf", a.IsSubsetOf(b) == sub)
	vh.Assert("operands unchanged", *a == a0 && *b == b0)
	// results are independent of the operands
	u.Toggle(q)
	n.Toggle(q)
	vh.Assert("results do not alias operands", *a == a0 && *b == b0)
	vh.Observe("u", u[0]+u[1]+u[2]+u[3])
}

// CheckSelf: operands may be the same object.
func CheckSelf() {
	a := anySet("a")
	a0 := *a
	vh.Assert("self", a.Equals(a) && a.IsSubsetOf(a) && !a.Less(a) && *a.Union(a) == a0 && *a.Intersect(a) == a0 && *a == a0)
}

// CheckClone: a clone is equal and independent.
func CheckClone() {
	b := anySet("b")
	b0 := *b
	i := vh.U8("i")
	c := b.Clone()
	vh.Assert("Clone equal", *c == b0 && c != b)
	c.Toggle(i)
	vh.Assert("Clone independent", *b == b0)
	d := b.Clone()
	b.Toggle(i)
	vh.Assert("source independent", *d == b0)
}

func pop(v uint64) int {
	v = v - v>>1&0x5555555555555555
	v = v&0x3333333333333333 + v>>2&0x3333333333333333
	v = (v + v>>4) & 0x0f0f0f0f0f0f0f0f
	return int(v * 0x0101010101010101 >> 56)
}

// CheckCount: cardinality against an independent population count.
func CheckCount() {
	b := anySet("b")
	n := 0
	for i := 0; i < 4; i++ {
		n += pop(b[i])
	}
	vh.Assert("Count", b.Count() == n)
	vh.Observe("n", b.Count())
}

// CheckIndicesSmall: every set of at most k members lists its members in order.
func CheckIndicesSmall() {
	hi := 2
	if vh.Deep() {
		hi = 3
	}
	n := vh.Pick("n", 0, hi)
	var ix []byte
	for i := 0; i < n; i++ {
		v := vh.U8("m")
		if i > 0 {
			vh.Assume(ix[i-1] < v)
		}
		ix = append(ix, v)
	}
	b := &set{}
	for _, i := range ix {
		b[i/64] |= 1 << (i % 64)
	}
	got := b.Indices()
	vh.Assert("Indices length", len(got) == n && b.Count() == n)
	ok := true
	for i := range ix {
		ok = ok && got[i] == ix[i]
	}
	vh.Assert("Indices ordered members", ok)
	vh.Observe("ix", got)
}

// CheckIndicesWindow: every pattern inside a window of 6 consecutive bits of a
// word, at every word and offset, with the rest of the set all-zero or all-one
// in the other words.
func CheckIndicesWindow() {
	w := vh.Pick("w", 0, 3)
	sh := vh.Pick("sh", 0, 58)
	pat := vh.U8("pat") & 0x3f
	b := &set{}
	if vh.Deep() && vh.Split(vh.Bool("full")) {
		for i := range b {
			if i != w {
				b[i] = ^uint64(0)
			}
		}
	}
	b[w] = uint64(pat) << uint(sh)
	got := b.Indices()
	k := 0
	ok := true
	for i := 0; i < 256; i++ {
		if has(b, byte(i)) {
			ok = ok && k < len(got) && got[k] == byte(i)
			k++
		}
	}
	vh.Assert("Indices lists exactly the members", ok && k == len(got))
	vh.Observe("n", len(got))
}
