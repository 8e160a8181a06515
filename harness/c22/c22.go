package c22

import (
	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
)

// valid is an arbitrary valid address in canonical form (see C20, C21).
func valid() string {
	p := vh.Bytes("payload", 28)
	vh.Assume(common.ValidKind(common.Alphabet[p[1]>>1&31]))
	c := common.CRC16(p)
	return common.Encode32(append(p, byte(c>>8), byte(c)))
}

func addr() address.Address {
	a, err := address.Validate(valid())
	vh.Assume(err == nil)
	return a
}

// CheckText: text round trip.
func CheckText() {
	a := addr()
	t, err := a.MarshalText()
	vh.Assert("MarshalText succeeds", err == nil && string(t) == a.String())
	var b address.Address
	err = b.UnmarshalText(t)
	vh.Assert("UnmarshalText accepts it", err == nil)
	vh.Assert("text round trip", b == a)
	vh.Assert("text is independent of the buffer", string(t) == a.String())
}

var both [64]byte

func init() {
	for i := 0; i < 32; i++ {
		both[i] = common.Alphabet[i]
		both[i+32] = common.Alphabet[i]
		if c := common.Alphabet[i]; c >= 'a' {
			both[i+32] = c - 'a' + 'A'
		}
	}
}

// CheckTextCasing: text in any casing gives the canonical address.
func CheckTextCasing() {
	p := vh.Bytes("payload", 28)
	vh.Assume(common.ValidKind(common.Alphabet[p[1]>>1&31]))
	c := common.CRC16(p)
	p = append(p, byte(c>>8), byte(c))
	canon := common.Encode32(p)
	upper := vh.Bytes("upper", 48)
	var s []byte
	for i := 0; i < 30; i += 5 {
		v := uint64(p[i])<<32 | uint64(p[i+1])<<24 | uint64(p[i+2])<<16 | uint64(p[i+3])<<8 | uint64(p[i+4])
		for k := 35; k >= 0; k -= 5 {
			s = append(s, both[upper[len(s)]&1<<5|byte(v>>uint(k))&31])
		}
	}
	v, err := address.Validate(string(s))
	vh.Assert("any casing validates", err == nil)
	vh.Assert("to the canonical form", v.String() == canon)
	var b address.Address
	err = b.UnmarshalText(s)
	vh.Assert("UnmarshalText accepts any casing", err == nil)
	vh.Assert("and gives the canonical address", b == v)
}

// CheckTextAny: text that is not an address is rejected like Validate rejects it.
func CheckTextAny() {
	s := vh.Bytes("s", 48)
	for i, c := range s {
		vh.Assume(c >= ' ' && c < 0x80 && (vh.Deep() || i >= 4 || c == "ndax"[i]))
	}
	var b address.Address
	if b.UnmarshalText(s) == nil {
		_, err := address.Validate(string(s))
		vh.Assert("UnmarshalText accepts only what Validate accepts", err == nil)
	} else {
		vh.Assert("target unchanged", b == address.Address{})
	}
}

// CheckTextShort: other lengths are rejected and leave the target alone.
func CheckTextShort() {
	n := vh.Pick("len", 0, 50)
	vh.Assume(n != 48)
	s := vh.Bytes("s", n)
	for _, c := range s {
		vh.Assume(c < 0x80)
	}
	a := address.Address{}
	vh.Assert("rejected", a.UnmarshalText(s) != nil)
	vh.Assert("target unchanged", a == address.Address{})
}

// CheckMsgp: msgpack round trip with trailing bytes.
func CheckMsgp() {
	a := addr()
	pre := vh.Bytes("prefix", 2)
	m, err := a.MarshalMsg(append([]byte(nil), pre...))
	vh.Assert("MarshalMsg succeeds", err == nil)
	vh.Assert("keeps what is already in the buffer", len(m) > 2 && m[0] == pre[0] && m[1] == pre[1])
	m = m[2:]
	vh.Assert("fits the advertised size", len(m) <= a.Msgsize())
	tail := vh.Bytes("tail", 3)
	m = append(m, tail...)
	var b address.Address
	rest, err := b.UnmarshalMsg(m)
	vh.Assert("UnmarshalMsg accepts it", err == nil)
	vh.Assert("msgpack round trip", b == a)
	vh.Assert("trailing bytes untouched", len(rest) == 3 && rest[0] == tail[0] && rest[1] == tail[1] && rest[2] == tail[2])
}

// CheckMsgpAny: arbitrary msgpack bytes never panic.
func CheckMsgpAny() {
	n := 12
	if vh.Deep() {
		n = 52
	}
	b := vh.Bytes("b", vh.Pick("len", 0, n))
	var a address.Address
	rest, err := a.UnmarshalMsg(b)
	vh.Assert("rest is a suffix", err != nil || len(rest) < len(b))
}

// CheckKindReported: the third character.
func CheckKindReported() {
	s := valid()
	a, err := address.Validate(s)
	vh.Assume(err == nil)
	vh.Assert("Kind", a.Kind() == s[2])
	vh.Assert("Kind is valid", address.IsValidKind(a.Kind()))
}

// CheckIsValidKind: exactly the documented kinds.
func CheckIsValidKind() {
	k := vh.U8("k")
	vh.Assert("IsValidKind", address.IsValidKind(k) == common.ValidKind(k))
	b, err := address.ParseKind(k)
	vh.Assert("ParseKind(byte) accepts exactly valid kinds", (err == nil) == common.ValidKind(k))
	vh.Assert("ParseKind(byte) value", err != nil || b == k)
	b, err = address.ParseKind(int8(k))
	vh.Assert("ParseKind(int8) accepts exactly valid kinds", (err == nil) == common.ValidKind(k))
	vh.Assert("ParseKind(int8) value", err != nil || b == k)
	_, err = address.ParseKind(int(k))
	vh.Assert("other types rejected", err != nil)
	_, err = address.ParseKind(nil)
	vh.Assert("nil rejected", err != nil)
}

// CheckParseKindText: the documented names, else the first letter.
func CheckParseKindText() {
	n := 6
	if vh.Deep() {
		n = 12
	}
	s := vh.String("s", vh.Pick("len", 0, n))
	for i := range []byte(s) {
		vh.Assume(s[i] < 0x80)
	}
	k, err := address.ParseKind(s)
	if s == "" {
		vh.Assert("empty rejected", err != nil)
		return
	}
	l := common.LowerStr(s)
	want := l[0]
	if l == "u" || l == "user" {
		want = 'a'
	}
	vh.Assert("accepts exactly names and texts starting with a kind letter", (err == nil) == common.ValidKind(want))
	vh.Assert("gives the named kind", err != nil || k == want)
}

// CheckParseKindNames: each documented name in any casing.
func CheckParseKindNames() {
	i := vh.Pick("name", 0, 6)
	s := []byte([]string{"u", "user", "ndau", "endowment", "exchange", "bpc", "marketmaker"}[i])
	for j, f := range vh.Bytes("case", len(s)) {
		s[j] ^= f & 0x20
	}
	k, err := address.ParseKind(string(s))
	vh.Assert("documented name", err == nil && k == "aanexbm"[i])
}

// CheckParseKindRune: runes.
func CheckParseKindRune() {
	r := rune(vh.U32("r"))
	vh.Assume(r >= 0 && r < 0x80)
	k, err := address.ParseKind(r)
	want := common.Lower(byte(r))
	vh.Assert("rune accepted iff a kind letter", (err == nil) == common.ValidKind(want))
	vh.Assert("rune kind", err != nil || k == want)
}
