package c25

import (
	"bytes"
	"crypto/sha256"

	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/verifh/vh"
)

func maxLen() int {
	if vh.Deep() {
		return 300
	}
	return 110
}

// width is the checksum width the documentation prescribes for n message bytes:
// the least number of at least three that makes 1+n+width a multiple of five.
func width(n int) int {
	w := 3
	for (1+n+w)%5 != 0 {
		w++
	}
	return w
}

// CheckAdd: a checksummed message is 1 byte of width, the message, and the
// last bytes of its SHA-224; checking it gives the message back.
func CheckAdd() {
	n := vh.Pick("n", 0, maxLen())
	m := vh.Bytes("m", n)
	orig := append([]byte(nil), m...)
	c := signature.AddChecksum(m)
	vh.Assert("length is a multiple of five", len(c)%5 == 0)
	w := len(c) - 1 - n
	vh.Assert("width", w == width(n) && w >= signature.ChecksumMinBytes)
	vh.Assert("width byte", int(c[0]) == w)
	vh.Assert("carries the message", bytes.Equal(c[1:1+n], orig))
	sum := sha256.Sum224(orig)
	vh.Assert("carries the hash", bytes.Equal(c[1+n:], sum[28-w:]))
	vh.Assert("input untouched", bytes.Equal(m, orig))
	back, ok := signature.CheckChecksum(c)
	vh.Assert("accepted", ok)
	vh.Assert("message back", bytes.Equal(back, orig))
}

// CheckAny: whatever is accepted is the checksummed form of the message returned.
func CheckAny() {
	n := vh.Pick("n", 0, maxLen())
	c := vh.Bytes("c", n)
	orig := append([]byte(nil), c...)
	m, ok := signature.CheckChecksum(c)
	vh.Assert("input untouched", bytes.Equal(c, orig))
	if !ok {
		return
	}
	vh.Cover("accepted")
	vh.Assert("checksum of at least three bytes", n-1-len(m) >= 3)
	vh.Assert("exactly the checksummed form", bytes.Equal(signature.AddChecksum(m), orig))
}

// CheckFlip: changing only checksum bytes of a good container is detected.
func CheckFlip() {
	n := vh.Pick("n", 0, maxLen())
	m := vh.Bytes("m", n)
	c := signature.AddChecksum(m)
	d := vh.Bytes("d", len(c)-1-n)
	var diff byte
	for i, b := range d {
		diff |= b
		c[1+n+i] ^= b
	}
	_, ok := signature.CheckChecksum(c)
	vh.Assert("a damaged checksum is rejected", ok == (diff == 0))
}
