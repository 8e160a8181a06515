package c18

import (
	"github.com/ndau/ndaumath/pkg/bitset256"
	"github.com/ndau/ndaumath/verifh/vh"
)

type set = bitset256.Bitset256

func anySet(n string) *set {
	return &set{vh.U64(n + "0"), vh.U64(n + "1"), vh.U64(n + "2"), vh.U64(n + "3")}
}

// CheckOrder: Less is the numeric order of the 256-bit number.
func CheckOrder() {
	a, b := anySet("a"), anySet("b")
	num := a[3] < b[3] || a[3] == b[3] && (a[2] < b[2] || a[2] == b[2] && (a[1] < b[1] || a[1] == b[1] && a[0] < b[0]))
	vh.Assert("Less is numeric order", a.Less(b) == num)
	vh.Assert("asymmetric", !(a.Less(b) && b.Less(a)))
	vh.Assert("trichotomy with Equals", a.Equals(b) == (!a.Less(b) && !b.Less(a)))
	vh.Observe("less", a.Less(b))
}

// CheckTransitive: order is transitive.
func CheckTransitive() {
	a, b, c := anySet("a"), anySet("b"), anySet("c")
	vh.Assert("transitive", !(a.Less(b) && b.Less(c)) || a.Less(c))
	vh.Assert("irreflexive", !a.Less(a))
}

// CheckBytes: AsBytes/FromBytes round trip, both directions, no aliasing.
func CheckBytes() {
	b := anySet("b")
	b0 := *b
	ba := b.AsBytes()
	vh.Assert("32 bytes", len(ba) == 32)
	c, err := bitset256.FromBytes(ba)
	vh.Assert("FromBytes accepts", err == nil && c != nil)
	vh.Assert("bytes round trip", *c == b0 && *b == b0)
	vh.Observe("bytes", ba)
	ba[vh.IntRange("k", 0, 31)] ^= 0xff
	vh.Assert("no aliasing", *c == b0 && *b == b0)
}

// CheckFromBytes: any 32 bytes decode and re-encode to themselves (so distinct
// sets have distinct encodings and every encoding is used).
func CheckFromBytes() {
	in := vh.Bytes("in", 32)
	cp := make([]byte, 32)
	copy(cp, in)
	b, err := bitset256.FromBytes(in)
	vh.Assert("accepted", err == nil && b != nil)
	out := b.AsBytes()
	same := len(out) == 32
	for i := range cp {
		same = same && out[i] == cp[i] && in[i] == cp[i]
	}
	vh.Assert("re-encodes", same)
}

// CheckLastByte: the last byte holds the lowest bit and the encoding of
// the bits is fixed (as the existing tests pin it).
func CheckLastByte() {
	b := &set{vh.U64("w"), 0, 0, 0}
	ba := b.AsBytes()
	vh.Assert("last byte holds bits 0..7", ba[31] == byte(b[0]))
}

// CheckLengths: other lengths are rejected.
func CheckLengths() {
	n := vh.Pick("n", 0, 70)
	if n == 32 {
		return
	}
	in := vh.Bytes("in", n)
	b, err := bitset256.FromBytes(in)
	vh.Assert("length rejected", err != nil && b == nil)
	vh.Observe("err", err != nil)
}

// CheckNilBytes: a nil slice is rejected.
func CheckNilBytes() {
	b, err := bitset256.FromBytes(nil)
	vh.Assert("nil rejected", err != nil && b == nil)
	b, err = bitset256.FromHex("")
	vh.Assert("empty hex rejected", err != nil && b == nil)
}

// CheckHex: AsHex/String/FromHex round trip.
func CheckHex() {
	b := anySet("b")
	h := b.AsHex()
	vh.Assert("64 characters", len(h) == 64 && b.String() == h)
	c, err := bitset256.FromHex(h)
	vh.Assert("hex round trip", err == nil && *c == *b)
	ok := true
	ba := b.AsBytes()
	const dig = "0123456789abcdef"
	for i := 0; i < 32; i++ {
		ok = ok && h[2*i] == dig[ba[i]>>4] && h[2*i+1] == dig[ba[i]&15]
	}
	vh.Assert("hex of bytes", ok)
	vh.Observe("hex", h)
}

// CheckFromHexAny: any string of 64 bytes is either rejected or is the (any
// case) hex of the set returned; other lengths are rejected; no panics.
func CheckFromHexAny() {
	s := vh.String("s", 64)
	b, err := bitset256.FromHex(s)
	valid := true
	for i := 0; i < 64; i++ {
		c := s[i]
		valid = valid && (c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')
	}
	vh.Assert("accepts exactly hex digits", (err == nil) == valid)
	if err == nil {
		h := b.AsHex()
		same := true
		for i := 0; i < 64; i++ {
			c := s[i]
			if c >= 'A' && c <= 'F' {
				c += 'a' - 'A'
			}
			same = same && h[i] == c
		}
		vh.Assert("value of hex", same)
	} else {
		vh.Assert("nil on error", b == nil)
	}
}

// CheckFromHexLen: hex strings of other lengths are rejected.
func CheckFromHexLen() {
	lens := []int{1, 2, 3, 4, 5, 6, 7, 8, 16, 31, 32, 33, 62, 63, 65, 66}
	n := lens[vh.Pick("n", 0, len(lens)-1)]
	s := vh.String("s", n)
	b, err := bitset256.FromHex(s)
	vh.Assert("other lengths rejected", err != nil && b == nil)
}
