package c06

import (
	"math/big"

	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/verifh/vh"
)

// value reads a decimal amount -?digits*[.digits{1,8}] in napu, exactly.
func value(s string) (v *big.Int, ok bool) {
	neg := len(s) > 0 && s[0] == '-'
	if neg {
		s = s[1:]
	}
	v = new(big.Int)
	dot := -1
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			if dot >= 0 {
				return nil, false
			}
			dot = 0
			continue
		}
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
		n++
		v.Mul(v, big.NewInt(10))
		v.Add(v, big.NewInt(int64(s[i]-'0')))
		if dot >= 0 {
			dot++
		}
	}
	if dot > 8 || dot == 0 {
		return nil, false
	}
	if dot < 0 {
		dot = 0
	}
	for ; dot < 8; dot++ {
		v.Mul(v, big.NewInt(10))
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

// shape splits amounts by digit count of the whole part and trailing zeros.
func amount(neg bool) int64 {
	vh.NoMerge()
	m := vh.U64("magnitude")
	vh.Assume(m <= 1<<63)
	n := int64(m)
	if neg {
		n = -n
	}
	vh.Assume((n < 0) == neg)
	k := vh.Pick("wholeDigits", 1, 11)
	lo := uint64(1)
	for i := 1; i < k; i++ {
		lo *= 10
	}
	w := m / 100000000
	vh.Assume(w < 10*lo && (w >= lo || k == 1))
	z := vh.Pick("trailingZeros", 0, 8)
	p := uint64(1)
	for i := 0; i < z; i++ {
		p *= 10
	}
	f := m % 100000000
	vh.Assume(f%p == 0 && (z == 8 || f%(10*p) != 0))
	return n
}

func CheckStringPos() { str(amount(false)) }
func CheckStringNeg() { str(amount(true)) }

// str: the text denotes exactly the amount.
func str(n int64) {
	s := types.Ndau(n).String()
	v, ok := value(s)
	vh.Assert("text is a decimal number", ok)
	if ok {
		vh.Assert("text denotes the amount", v.Cmp(big.NewInt(n)) == 0)
	}
	vh.Assert("text has a whole part", len(s) > 0 && s[0] != '.')
	vh.Observe("s", s)
}

// CheckRoundTrip: parsing the text of a non-negative amount gives it back.
func CheckRoundTrip() {
	n := amount(false)
	r, err := types.ParseNdau(types.Ndau(n).String())
	vh.Assert("text of a non-negative amount parses", err == nil)
	vh.Assert("and gives the amount back", err != nil || int64(r) == n)
	vh.Observe("r", int64(r))
}

func parse(s string) {
	r, err := types.ParseNdau(s)
	if err != nil {
		return
	}
	// surrounding white space is allowed
	for len(s) > 0 && space(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && space(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	v, ok := value(s)
	vh.Assert("accepted text is a decimal number", ok)
	if ok {
		vh.Assert("accepted text gives the amount it denotes", v.Cmp(big.NewInt(int64(r))) == 0)
	}
	vh.Observe("r", int64(r))
}

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r' }

// CheckParseAny: every byte string up to a short length.
func CheckParseAny() {
	n := 5
	if vh.Deep() {
		n = 8
	}
	parse(vh.String("s", vh.Pick("len", 0, n)))
}

func digits(name string, n int) string {
	b := vh.Bytes(name, n)
	for _, c := range b {
		vh.Assume(c >= '0' && c <= '9')
	}
	return string(b)
}

// CheckParseDigits: long numbers, around and beyond the range of the type.
func CheckParseDigits() {
	w := vh.Pick("whole", 9, 21)
	f := vh.Pick("frac", 0, 9)
	vh.Assume(vh.Deep() || f == 0 || f == 1 || f == 7 || f == 8 || f == 9)
	s := digits("w", w)
	if f > 0 {
		s += "." + digits("f", f)
	}
	parse(s)
}
