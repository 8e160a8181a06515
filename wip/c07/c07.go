package c07

import (
	"math/big"

	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/verifh/vh"
)

// shape splits the input by which components it has and their digit counts.
func shape(n int64, maxActive int) {
	m := n
	if n < 0 {
		m = -n
	}
	if n == -1<<63 {
		return
	}
	act := 0
	for _, c := range []struct {
		name string
		unit int64
		max  int
	}{{"y", types.Year, 6}, {"mo", types.Month, 2}, {"d", types.Day, 2}, {"h", types.Hour, 2}, {"mi", types.Minute, 2}, {"s", types.Second, 2}, {"us", types.Microsecond, 6}} {
		k := 0
		if act < maxActive {
			k = vh.Pick(c.name, 0, c.max)
		}
		q := m / c.unit
		m %= c.unit
		if k == 0 {
			vh.Assume(q == 0)
			continue
		}
		act++
		lo := int64(1)
		for i := 1; i < k; i++ {
			lo *= 10
		}
		vh.Assume(q >= lo && q < lo*10)
	}
}

func roundTrip(neg bool) {
	vh.NoMerge()
	n := vh.I64("n")
	vh.Assume((n < 0) == neg)
	active := 2
	if vh.Deep() {
		active = 7
	}
	shape(n, active)
	s := types.Duration(n).String()
	vh.Observe("s", s)
	r, err := types.ParseDuration(s)
	vh.Assert("text of a duration parses", err == nil)
	vh.Assert("and gives the duration back", err != nil || int64(r) == n)
}

func CheckRoundTripPos() { roundTrip(false) }
func CheckRoundTripNeg() { roundTrip(true) }

func CheckTextMarshal() {
	n := vh.I64("n")
	b, err := types.Duration(n).MarshalText()
	vh.Assert("MarshalText succeeds", err == nil)
	var d types.Duration
	err = d.UnmarshalText(b)
	vh.Assert("UnmarshalText accepts MarshalText", err == nil)
	vh.Assert("UnmarshalText inverts MarshalText", err != nil || int64(d) == n)
}

// oracle: sum of the components of [-][p](Ny)?(Nm)?(Nd)?(t(Nh)?(Nm)?(Ns)?(Nu)?)?
// with an optional s after u, case-insensitive; ok is false if s has another form.
func oracle(s string) (v *big.Int, ok bool) {
	i := 0
	v = new(big.Int)
	neg := i < len(s) && s[i] == '-'
	if neg {
		i++
	}
	if i < len(s) && lower(s[i]) == 'p' {
		i++
	}
	date := []struct {
		sym  byte
		unit int64
		max  int
	}{{'y', types.Year, 1000}, {'m', types.Month, 2}, {'d', types.Day, 2}}
	clock := []struct {
		sym  byte
		unit int64
		max  int
	}{{'h', types.Hour, 2}, {'m', types.Minute, 2}, {'s', types.Second, 2}, {'u', types.Microsecond, 6}}
	part := func(sym byte, unit int64, max int) {
		j := i
		n := new(big.Int)
		for j < len(s) && s[j] >= '0' && s[j] <= '9' && j-i <= max {
			n.Mul(n, big.NewInt(10))
			n.Add(n, big.NewInt(int64(s[j]-'0')))
			j++
		}
		if j == i || j-i > max || j == len(s) {
			return
		}
		if sym == 'u' {
			// u, or the Greek letter mu in either case
			if lower(s[j]) == 'u' {
				j++
			} else if j+1 < len(s) && (s[j] == 0xCE && (s[j+1] == 0xBC || s[j+1] == 0x9C) || s[j] == 0xC2 && s[j+1] == 0xB5) {
				j += 2
			} else {
				return
			}
			if j < len(s) && lower(s[j]) == 's' {
				j++
			} else if j+1 < len(s) && s[j] == 0xC5 && s[j+1] == 0xBF { // long s, equal to s when case is ignored
				j += 2
			}
		} else if lower(s[j]) == sym {
			j++
		} else if sym == 's' && j+1 < len(s) && s[j] == 0xC5 && s[j+1] == 0xBF {
			j += 2
		} else {
			return
		}
		n.Mul(n, big.NewInt(unit))
		v.Add(v, n)
		i = j
	}
	for _, p := range date {
		part(p.sym, p.unit, p.max)
	}
	if i < len(s) && lower(s[i]) == 't' {
		i++
		for _, p := range clock {
			part(p.sym, p.unit, p.max)
		}
	}
	if neg {
		v.Neg(v)
	}
	return v, i == len(s)
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		c += 32
	}
	return c
}

func parse(s string) {
	r, err := types.ParseDuration(s)
	v, ok := oracle(s)
	vh.Assert("accepts exactly the documented form, if representable", (err == nil) == (ok && v.IsInt64()))
	if err != nil {
		return
	}
	vh.Assert("accepted text gives the exact sum of its parts", !ok || v.Cmp(big.NewInt(int64(r))) == 0)
	vh.Observe("r", int64(r))
}

func CheckParseAny() {
	n := 4
	if vh.Deep() {
		n = 6
	}
	parse(vh.String("s", vh.Pick("len", 0, n)))
}

func digits(name string, n int) string {
	b := vh.Bytes(name, n)
	for _, c := range b {
		vh.Assume(c >= '0' && c <= '9')
	}
	return string(b)
}

// CheckParseYears: year counts around and beyond the range.
func CheckParseYears() {
	s := digits("y", vh.Pick("ylen", 1, 21)) + "y"
	if vh.Pick("neg", 0, 1) == 1 {
		s = "-" + s
	}
	if vh.Pick("rest", 0, 1) == 1 {
		s += digits("m", 2) + "m" + digits("d", 2) + "d"
	}
	parse(s)
}

// CheckParseParts: any choice of components.
func CheckParseParts() {
	s := ""
	if vh.Pick("neg", 0, 1) == 1 {
		s = "-"
	}
	for _, p := range []struct {
		name, sym string
		max       int
	}{{"y", "y", 1}, {"mo", "m", 1}, {"d", "d", 1}, {"t", "t", 0}, {"h", "h", 1}, {"mi", "m", 1}, {"s", "s", 1}, {"u", "us", 1}} {
		if p.name == "t" {
			s += "t"
			continue
		}
		if vh.Pick(p.name+"?", 0, 1) == 1 {
			n := 2
			if p.name == "u" {
				n = 6
			}
			s += digits(p.name, n) + p.sym
		}
	}
	parse(s)
}
