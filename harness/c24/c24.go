package c24

import (
	"strings"

	"github.com/ndau/ndaumath/pkg/words"
	"github.com/ndau/ndaumath/verifh/vh"
)

func list() []string { return strings.Split(words.FromPrefix("en", "", 0), " ") }

// CheckList: 2048 words, strictly sorted, each found at its own position: the
// two words (g, w) are accepted when and only when the second carries the right
// checksum, and then stand for the bits of their two positions.
func CheckList() {
	l := list()
	vh.Assert("2048 words", len(l) == 2048)
	ok := true
	for i := 1; i < len(l); i++ {
		if l[i-1] >= l[i] {
			ok = false
		}
	}
	vh.Assert("strictly sorted", ok)
	i, j := vh.IntRange("i", 0, 2047), vh.IntRange("j", 0, 2047)
	b, err := words.ToBytes("en", []string{l[i], l[j]})
	// 22 bits: two bytes and a 6-bit checksum
	v := uint32(i)<<11 | uint32(j)
	b0, b1 := byte(v>>14), byte(v>>6)
	c := crc8tab[crc8tab[b0]^b1]
	good := uint32(c)&63 == v&63
	// or one byte and 14 bits
	short := uint32(crc8tab[b0]) == v&(1<<14-1)
	if short {
		vh.Assert("one byte", err == nil && len(b) == 1 && b[0] == b0)
	} else if good {
		vh.Assert("two bytes", err == nil && len(b) == 2 && b[0] == b0 && b[1] == b1)
	} else {
		vh.Assert("checksum mismatch", err != nil)
	}
}

var crc8tab [256]byte

func init() {
	for i := range crc8tab {
		c := byte(i)
		for k := 0; k < 8; k++ {
			if c >= 0x80 {
				c = c<<1 ^ 0x1D
			} else {
				c <<= 1
			}
		}
		crc8tab[i] = c
	}
}

// text: a string starting with the given letters, as one of two words: if it
// is accepted, it is the word its decoded bits stand for.
func text(prefix string, n int, first bool) {
	l := list()
	if n = vh.Pick("len", len(prefix), n); n < len(prefix) {
		return
	}
	s := prefix + vh.String("s", n-len(prefix))
	g := l[vh.IntRange("g", 0, 2047)]
	ws := []string{g, s}
	if first {
		ws = []string{s, g}
	}
	b, err := words.ToBytes("en", ws)
	if err != nil {
		return
	}
	back, err := words.FromBytes("en", b)
	vh.Assert("only words of the list are accepted", err == nil && len(back) == 2 && back[0] == ws[0] && back[1] == ws[1])
}

func CheckTextK()  { text("k", 5, true) }
func CheckTextZ()  { text("z", 6, false) }
func CheckTextWi() { text("wi", 6, false) }
func CheckTextQu() { text("qu", 7, vh.Deep()) }
func CheckTextAb() { text("ab", 7, true) }

// DeepText: any string.
func DeepTextFirst()  { text("", 9, true) }
func DeepTextSecond() { text("", 9, false) }

// CheckPrefix: exactly the words with the prefix, in order, up to the limit.
func CheckPrefix()   { prefix("", 1) }
func CheckPrefixS()  { prefix("s", 1) }
func CheckPrefixAb() { prefix("ab", 2) }

// DeepPrefix: longer prefixes.
func DeepPrefix() { prefix("", 4) }

func prefix(p0 string, n int) {
	l := list()
	vh.NoMerge()
	n = vh.Pick("len", 0, n)
	max := vh.Int("max")
	if max > 3 {
		max = 1000000 // no limit is reached; smaller ones are covered
	} else if max < 0 {
		max = -5
	}
	p := p0 + vh.String("p", n)
	got := words.FromPrefix("en", p, max)
	pos, k := 0, 0
	ok := true
	for _, w := range l {
		if len(w) < len(p) || w[:len(p)] != p || max > 0 && k >= max {
			continue
		}
		if k > 0 {
			ok = ok && pos < len(got) && got[pos] == ' '
			pos++
		}
		ok = ok && pos+len(w) <= len(got) && got[pos:pos+len(w)] == w
		pos += len(w)
		k++
	}
	vh.Assert("words with the prefix", ok && pos == len(got))
}

// CheckLanguage: an unknown language is an error.
func CheckLanguage() {
	l := vh.String("lang", vh.Pick("len", 0, 3))
	vh.Assume(l != "en")
	_, err := words.FromBytes(l, vh.Bytes("b", 2))
	vh.Assert("FromBytes unknown language", err != nil)
	_, err = words.ToBytes(l, []string{"abandon"})
	vh.Assert("ToBytes unknown language", err != nil)
	vh.Assert("FromPrefix unknown language", words.FromPrefix(l, "a", 0) == "")
}
