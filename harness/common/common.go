// Package common holds reference code shared by harnesses.
package common

// Alphabet is the documented base32 alphabet: lower case without l, 1, 0 and o.
const Alphabet = "abcdefghijkmnpqrstuvwxyz23456789"

var digitTab, lowerTab [256]byte

func init() {
	for i := range digitTab {
		digitTab[i] = 255
		lowerTab[i] = byte(i)
	}
	for i := 0; i < 32; i++ {
		digitTab[Alphabet[i]] = byte(i)
	}
	for c := 'A'; c <= 'Z'; c++ {
		lowerTab[c] = byte(c) + 'a' - 'A'
		digitTab[c] = digitTab[lowerTab[c]]
	}
}

// Digit returns the value of a base32 character in either case, or 255.
func Digit(c byte) byte { return digitTab[c] }

// Encode32 is the base32 text of b, whose length is a multiple of 5.
func Encode32(b []byte) string {
	var out []byte
	for i := 0; i+5 <= len(b); i += 5 {
		v := uint64(b[i])<<32 | uint64(b[i+1])<<24 | uint64(b[i+2])<<16 | uint64(b[i+3])<<8 | uint64(b[i+4])
		for k := 35; k >= 0; k -= 5 {
			out = append(out, Alphabet[v>>uint(k)&31])
		}
	}
	return string(out)
}

// Decode32 decodes text whose length is a multiple of 8; ok is false if a
// character is outside the alphabet.
func Decode32(s string) (b []byte, ok bool) {
	bad := byte(0)
	for i := 0; i+8 <= len(s); i += 8 {
		v := uint64(0)
		for k := 0; k < 8; k++ {
			d := Digit(s[i+k])
			bad |= d
			v = v<<5 | uint64(d&31)
		}
		b = append(b, byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return b, bad < 32
}

// CRC16 is CRC-16/AUG-CCITT computed bit by bit (polynomial 0x1021, initial value 0x1d0f).
func CRC16(b []byte) uint16 {
	c := uint16(0x1d0f)
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			bit := c>>15 ^ uint16(x>>uint(i)&1)
			c <<= 1
			c ^= 0x1021 & -bit
		}
	}
	return c
}

// ValidKind is the documented set of address kinds.
func ValidKind(k byte) bool {
	return k == 'a' || k == 'n' || k == 'e' || k == 'x' || k == 'b' || k == 'm'
}

// ValidAddr is the documented definition of a valid address.
func ValidAddr(s string) bool {
	if len(s) != 48 {
		return false
	}
	b, ok := Decode32(s)
	return ok && ValidKind(Lower(s[2])) && uint16(b[28])<<8|uint16(b[29]) == CRC16(b[:28])
}

// Lower folds an ASCII letter.
func Lower(c byte) byte { return lowerTab[c] }

// LowerStr folds an ASCII string.
func LowerStr(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = Lower(b[i])
	}
	return string(b)
}
