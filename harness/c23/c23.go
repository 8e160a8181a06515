package c23

import (
	"strings"

	"github.com/ndau/ndaumath/pkg/words"
	"github.com/ndau/ndaumath/verifh/vh"
)

// crc8tab is the CRC-8 table of polynomial 0x1D.
var crc8tab [256]byte

func init() {
	for i := range crc8tab {
		c := byte(i)
		for k := 0; k < 8; k++ {
			if c >= 0x80 {
				c = c<<1 ^ 0x1D
			} else {
				c <<= 1
			}
		}
		crc8tab[i] = c
	}
}

func crc8(b []byte) byte {
	c := byte(0)
	for _, x := range b {
		c = crc8tab[c^x]
	}
	return c
}

// shape gives the number of words and of checksum bits for n bytes.
func shape(n int) (words, crclen int) {
	words = (8*n + 4 + 10) / 11
	return words, 11*words - 8*n
}

// shorter reports whether the words of b are also the words of a string one
// byte shorter (the documented ambiguity): it takes as many words, and its
// longer checksum field reads as the last byte followed by the low bits of crc8(b).
func shorter(b []byte) bool {
	n := len(b)
	if n == 0 {
		return false
	}
	w, l := shape(n)
	if v, _ := shape(n - 1); v != w {
		return false
	}
	want := uint32(crc8(b[:n-1]))
	got := uint32(b[n-1])<<uint(l) | uint32(crc8(b))&(1<<uint(l)-1)
	return want == got
}

func run(n int) {
	b := vh.Bytes("b", n)
	ws, err := words.FromBytes("en", b)
	vh.Assert("FromBytes succeeds", err == nil)
	want, _ := shape(n)
	vh.Assert("number of words depends only on the length", len(ws) == want)
	r, err := words.ToBytes("en", ws)
	vh.Assert("words convert back", err == nil)
	if !shorter(b) {
		vh.Assert("to the original bytes", len(r) == n && same(r, b))
	} else {
		vh.Assert("or to the shorter reading", len(r) == n-1 && same(r, b[:n-1]))
	}
}

func same(a, b []byte) bool {
	var d byte
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

// CheckRoundTrip: seeds of 0 to 20 bytes and the usual longer sizes.
func CheckRoundTrip() {
	lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 28, 32}
	run(lens[vh.Pick("len", 0, len(lens)-1)])
}

// DeepRoundTrip: all lengths up to 66 bytes (every residue of 11).
func DeepRoundTrip() { run(vh.Pick("len", 0, 66)) }

func decode(lens []int) {
	list := strings.Split(words.FromPrefix("en", "", 0), " ")
	n := lens[vh.Pick("n", 0, len(lens)-1)]
	ws := make([]string, n)
	for i := range ws {
		ws[i] = list[vh.IntRange("w"+string(rune('a'+i)), 0, 2047)]
	}
	b, err := words.ToBytes("en", ws)
	if err != nil {
		return
	}
	back, err := words.FromBytes("en", b)
	vh.Assert("decoded bytes are those the words were made from", err == nil && len(back) == n && sameWords(back, ws))
}

func sameWords(a, b []string) bool {
	ok := true
	for i := range a {
		if a[i] != b[i] {
			ok = false
		}
	}
	return ok
}

// CheckDecode: lists of 0 to 8 and of 12 words of the list, in any order: either
// rejected, or the words of the bytes returned.
func CheckDecode() {
	lens := []int{0, 1, 2, 3, 4, 7, 8, 12}
	decode(lens)
}

// DeepDecode: up to 24 words.
func DeepDecode() {
	lens := []int{}
	for i := 0; i <= 24; i++ {
		lens = append(lens, i)
	}
	decode(lens)
}
