package c19

import (
	"crypto/sha256"

	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/verifh/vh"
)

// the documented alphabet, independent of the package's constant
const alpha = "abcdefghijkmnpqrstuvwxyz23456789"

func size(q, d int) int {
	if vh.Deep() {
		return d
	}
	return q
}

// CheckRoundTrip: encode/decode is the identity; the text is the documented
// base32 (5-bit groups, most significant first, padded to 8 characters).
func CheckRoundTrip() {
	n := vh.Pick("n", 0, size(12, 42))
	b := vh.Bytes("b", n)
	cp := append([]byte(nil), b...)
	s := b32.Encode(b)
	want := (n + 4) / 5 * 8
	vh.Assert("encoded length", len(s) == want)
	chars := (n*8 + 4) / 5
	ok := true
	for i := 0; i < len(s); i++ {
		if i >= chars {
			ok = ok && s[i] == '='
			continue
		}
		var v byte
		for k := 0; k < 5; k++ {
			bit := i*5 + k
			v <<= 1
			if bit/8 < n {
				v |= cp[bit/8] >> (7 - uint(bit%8)) & 1
			}
		}
		ok = ok && s[i] == alpha[v]
	}
	vh.Assert("documented alphabet and order", ok)
	d, err := b32.Decode(s)
	vh.Assert("decodes", err == nil && len(d) == n)
	same := true
	for i := range cp {
		same = same && d[i] == cp[i] && b[i] == cp[i]
	}
	vh.Assert("round trip", same)
	vh.Observe("s", s)
}

// CheckCase: upper-casing any subset of the letters does not matter.
func CheckCase() {
	n := vh.Pick("n", 0, size(10, 30))
	b := vh.Bytes("b", n)
	s := []byte(b32.Encode(b))
	for i := range s {
		up := vh.Bool("up")
		if s[i] >= 'a' && s[i] <= 'z' && up {
			s[i] -= 'a' - 'A'
		}
	}
	d, err := b32.Decode(string(s))
	vh.Assert("decodes", err == nil && len(d) == n)
	same := true
	for i := range b {
		same = same && d[i] == b[i]
	}
	vh.Assert("case-insensitive", same)
	vh.Observe("s", s)
}

// CheckDecodeAny: arbitrary text never panics; what is accepted contains only
// letters of the alphabet (any case), padding and line breaks.
func CheckDecodeAny() {
	n := vh.Pick("n", 0, size(8, 10))
	s := vh.String("s", n)
	for i := 0; i < n; i++ {
		vh.Assume(s[i] < 0x80)
	}
	d, err := b32.Decode(s)
	if err == nil {
		ok := true
		k := 0
		for i := 0; i < n; i++ {
			c := s[i]
			if c >= 'A' && c <= 'Z' {
				c += 'a' - 'A'
			}
			in := false
			for j := 0; j < len(alpha); j++ {
				in = in || alpha[j] == c
			}
			if in {
				k++
			}
			ok = ok && (in || c == '=' || c == '\r' || c == '\n')
		}
		vh.Assert("only alphabet accepted", ok)
		vh.Assert("length follows the letters", len(d) == k*5/8)
	}
	vh.Observe("ok", err == nil)
}

// CheckIndex: Index is the position of the letter.
func CheckIndex() {
	c := vh.U8("c")
	want := -1
	for j := 0; j < len(alpha); j++ {
		if alpha[j] == c {
			want = j
		}
	}
	vh.Assert("Index", b32.Index(string([]byte{c})) == want)
	vh.Assert("alphabet constant", b32.NdauAlphabet == alpha)
	vh.Observe("i", want)
}

// crc is a bit-serial reference of CRC-16/AUG-CCITT.
func crc(b []byte) uint16 {
	r := uint16(0x1d0f)
	for _, x := range b {
		r ^= uint16(x) << 8
		for i := 0; i < 8; i++ {
			top := r >> 15
			r = r<<1 ^ top*0x1021
		}
	}
	return r
}

// CheckSum16: Checksum16 is the documented CRC; Check accepts exactly it.
func CheckSum16() {
	n := vh.Pick("n", 0, size(28, 64))
	b := vh.Bytes("b", n)
	ck := b32.Checksum16(b)
	r := crc(b)
	vh.Assert("AUG-CCITT", len(ck) == 2 && ck[0] == byte(r>>8) && ck[1] == byte(r))
	c := vh.Bytes("c", 2)
	vh.Assert("Check accepts exactly the checksum", b32.Check(b, c) == (c[0] == ck[0] && c[1] == ck[1]))
	vh.Observe("ck", ck)
}

// CheckSum24: Checksum24 is the first three bytes of SHA-256.
func CheckSum24() {
	n := vh.Pick("n", 0, size(12, 40))
	b := vh.Bytes("b", n)
	h := sha256.Sum256(b)
	ck := b32.Checksum24(b)
	vh.Assert("sha256 prefix", len(ck) == 3 && ck[0] == h[0] && ck[1] == h[1] && ck[2] == h[2])
}
