package c20

import (
	"crypto/sha256"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
)

var lens = []int{0, 1, 11, 12, 13, 32, 33, 64, 65, 100}

// CheckGenerate: the address of data is the documented encoding of its hash.
func CheckGenerate() {
	kind := vh.U8("kind")
	data := vh.Bytes("data", lens[vh.Pick("len", 0, len(lens)-1)])
	a, err := address.Generate(kind, data)
	vh.Assert("generates iff kind valid and data long enough", (err == nil) == (common.ValidKind(kind) && len(data) >= 12))
	if err != nil {
		vh.Assert("no address on error", a.String() == "")
		return
	}
	s := a.String()
	vh.Assert("48 characters", len(s) == 48)
	vh.Assert("starts with nd and the kind", s[0] == 'n' && s[1] == 'd' && s[2] == kind)
	h := sha256.Sum256(data)
	hdr := uint16(12)<<11 | uint16(3)<<6 | uint16(common.Digit(kind))<<1
	p := append([]byte{byte(hdr >> 8), byte(hdr)}, h[6:]...)
	c := common.CRC16(p)
	p = append(p, byte(c>>8), byte(c))
	vh.Assert("is the documented function of the hash", s == common.Encode32(p))
	vh.Observe("s", s)
}

// CheckGeneratedValid: a generated address validates to itself.
func CheckGeneratedValid() {
	data := vh.Bytes("data", 33)
	kind := "anexbm"[vh.Pick("kind", 0, 5)]
	a, err := address.Generate(kind, data)
	vh.Assume(err == nil)
	b, err := address.Validate(a.String())
	vh.Assert("generated address validates", err == nil)
	vh.Assert("to itself", b == a)
	vh.Assert("revalidates", a.Revalidate() == nil)
	vh.Assert("kind is kept", a.Kind() == kind)
}

func ascii(name string, n int) string {
	b := vh.Bytes(name, n)
	for _, c := range b {
		vh.Assume(c < 0x80)
	}
	return string(b)
}

// CheckAccepts: every ASCII string of the right length without line breaks.
func CheckAccepts() {
	accepts(func(i int, c byte) { vh.Assume(c != '\r' && c != '\n') })
}

// CheckLineBreak: a run of line breaks among alphabet characters and padding
// (the decoder skips line breaks).
func CheckLineBreak() {
	k := vh.Pick("run", 1, 16)
	at := vh.Pick("at", 3, 48-16)
	vh.Assume(vh.Deep() || at == 3 || at == 20 || at == 48-16)
	pad := vh.Pick("pad", 0, 6)
	v := vh.Bytes("v", 48)
	var s []byte
	for i := range v {
		c := common.Alphabet[v[i]&31]
		if i >= at && i < at+k {
			c = '\r' ^ v[i]&1*('\r'^'\n')
		} else if i >= 48-pad {
			c = '='
		}
		s = append(s, c)
	}
	vh.Assume(common.ValidKind(s[2]))
	_, err := address.Validate(string(s))
	vh.Assert("line breaks rejected", err != nil)
}

func accepts(f func(i int, c byte)) {
	s := ascii("s", 48)
	for i := range s {
		f(i, s[i])
	}
	a, err := address.Validate(s)
	// CheckDecode shows that Decode is base32 decoding
	b, e := b32.Decode(s)
	ok := e == nil && len(b) == 30 && common.ValidKind(common.Lower(s[2])) && uint16(b[28])<<8|uint16(b[29]) == common.CRC16(b[:28])
	vh.Assert("accepts exactly the valid addresses", (err == nil) == ok)
	if err == nil {
		vh.Assert("result is the canonical form", a.String() == common.LowerStr(s))
		vh.Assert("kind is the third character", a.Kind() == common.Lower(s[2]))
	} else {
		vh.Assert("no address on error", a.String() == "")
	}
}

// CheckDecode: Decode reads the documented alphabet in either case.
func CheckDecode() {
	s := ascii("s", 48)
	for i := range s {
		vh.Assume(s[i] != '\r' && s[i] != '\n' && s[i] != '=')
	}
	b, err := b32.Decode(s)
	want, ok := common.Decode32(s)
	vh.Assert("decodes iff all characters are in the alphabet", (err == nil) == ok)
	if err != nil {
		return
	}
	vh.Assert("30 bytes", len(b) == 30)
	for i := range want {
		vh.Assert("byte", b[i] == want[i])
	}
}

// CheckEncode: Encode is the inverse.
func CheckEncode() {
	b := vh.Bytes("b", 5*vh.Pick("blocks", 0, 8))
	vh.Assert("Encode is base32", b32.Encode(b) == common.Encode32(b))
}

// CheckValidateLen: other lengths are rejected without panic.
func CheckValidateLen() {
	n := vh.Pick("len", 0, 50)
	vh.Assume(n != 48)
	_, err := address.Validate(ascii("s", n))
	vh.Assert("wrong length rejected", err != nil)
}

// DeepValidateNonASCII: a character outside ASCII never makes an invalid result.
func DeepValidateNonASCII() {
	s := []byte("ndarw5i7rmqtqstw4mtnchmfvxnrq4k3e2ytsyvsc7nxt2y7")
	at := 3
	n := vh.Pick("n", 1, 3)
	for i, c := range vh.Bytes("c", n) {
		s[at+i] = c
	}
	vh.Assume(s[at] >= 0x80)
	a, err := address.Validate(string(s))
	vh.Assert("accepted only with a valid result", err != nil || common.ValidAddr(a.String()))
}
