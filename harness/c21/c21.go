package c21

import (
	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
)

// valid is an arbitrary valid address in canonical form: 28 payload bytes with
// a valid kind, and their checksum (C20 shows that these are all of them).
func valid() []byte {
	p := vh.Bytes("payload", 28)
	// the third character is bits 1..5 of the second byte
	vh.Assume(common.ValidKind(common.Alphabet[p[1]>>1&31]))
	c := common.CRC16(p)
	return []byte(common.Encode32(append(p, byte(c>>8), byte(c))))
}

// CheckTypo: replacing one character by a different one.
func CheckTypo() {
	vh.NoMerge()
	s := valid()
	at := vh.Pick("at", 0, 47)
	c := vh.U8("c")
	vh.Assume(c < 0x80 && common.Lower(c) != s[at])
	s[at] = c
	_, err := address.Validate(string(s))
	vh.Assert("typo detected", err != nil)
}

// CheckSwap: exchanging two adjacent different characters.
func CheckSwap() {
	vh.NoMerge()
	s := valid()
	at := vh.Pick("at", 0, 46)
	vh.Assume(s[at] != s[at+1])
	s[at], s[at+1] = s[at+1], s[at]
	_, err := address.Validate(string(s))
	vh.Assert("swap detected", err != nil)
}

// CheckOriginal: the unmodified address is valid.
func CheckOriginal() {
	s := valid()
	_, err := address.Validate(string(s))
	vh.Assert("original is valid", err == nil)
}
