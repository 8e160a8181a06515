// Package decimal stands in for github.com/ericlagergren/decimal, whose source
// is not available offline. It implements the operations ndaumath uses with the
// documented semantics of Context128: 34 significant digits, round half to even,
// arbitrary-precision integer quotient and remainder.
package decimal

import "math/big"

type Context struct{ Precision int }

var Context128 = Context{34}

// Big holds an integer value (ndaumath only uses scale 0); nan marks invalid results.
type Big struct {
	n   big.Int
	exp int // value is n * 10^exp, exp >= 0
	nan bool
}

func WithContext(c Context) *Big { return new(Big) }

func New(v int64, scale int) *Big { return new(Big).SetMantScale(v, scale) }

var ten = big.NewInt(10)

func (z *Big) full() *big.Int {
	if z.exp == 0 {
		return &z.n
	}
	return new(big.Int).Mul(&z.n, new(big.Int).Exp(ten, big.NewInt(int64(z.exp)), nil))
}

func (z *Big) SetMantScale(v int64, scale int) *Big {
	if scale != 0 {
		panic("decimal shim: scale")
	}
	z.n.SetInt64(v)
	z.exp, z.nan = 0, false
	return z
}

func (z *Big) SetUint64(v uint64) *Big {
	z.n.SetUint64(v)
	z.exp, z.nan = 0, false
	return z
}

// round to 34 significant digits, half to even.
func (z *Big) round(v *big.Int) *Big {
	z.nan = false
	s := new(big.Int).Abs(v).String()
	if len(s) <= 34 {
		z.n.Set(v)
		z.exp = 0
		return z
	}
	e := len(s) - 34
	p := new(big.Int).Exp(ten, big.NewInt(int64(e)), nil)
	q, r := new(big.Int).QuoRem(new(big.Int).Abs(v), p, new(big.Int))
	c := new(big.Int).Lsh(r, 1).Cmp(p)
	if c > 0 || c == 0 && q.Bit(0) == 1 {
		q.Add(q, big.NewInt(1))
	}
	if v.Sign() < 0 {
		q.Neg(q)
	}
	z.n.Set(q)
	z.exp = e
	return z
}

func (z *Big) Add(x, y *Big) *Big { return z.op(x, y, new(big.Int).Add(x.full(), y.full())) }
func (z *Big) Sub(x, y *Big) *Big { return z.op(x, y, new(big.Int).Sub(x.full(), y.full())) }
func (z *Big) Mul(x, y *Big) *Big { return z.op(x, y, new(big.Int).Mul(x.full(), y.full())) }

func (z *Big) op(x, y *Big, v *big.Int) *Big {
	if x.nan || y.nan {
		z.nan = true
		return z
	}
	return z.round(v)
}

func (z *Big) QuoInt(x, y *Big) *Big {
	if x.nan || y.nan || y.full().Sign() == 0 {
		z.nan = true
		return z
	}
	return z.round(new(big.Int).Quo(x.full(), y.full()))
}

func (z *Big) Rem(x, y *Big) *Big {
	if x.nan || y.nan || y.full().Sign() == 0 {
		z.nan = true
		return z
	}
	return z.round(new(big.Int).Rem(x.full(), y.full()))
}

func (z *Big) QuoRem(x, y, r *Big) (*Big, *Big) {
	if x.nan || y.nan || y.full().Sign() == 0 {
		z.nan, r.nan = true, true
		return z, r
	}
	q, m := new(big.Int).QuoRem(x.full(), y.full(), new(big.Int))
	z.round(q)
	r.round(m)
	return z, r
}

func (z *Big) Int64() (int64, bool) {
	v := z.full()
	if z.nan || !v.IsInt64() {
		return 0, false
	}
	return v.Int64(), true
}

func (z *Big) Uint64() (uint64, bool) {
	v := z.full()
	if z.nan || !v.IsUint64() {
		return 0, false
	}
	return v.Uint64(), true
}

func (z *Big) Cmp(x *Big) int { return z.full().Cmp(x.full()) }
func (z *Big) Sign() int      { return z.n.Sign() }
func (z *Big) IsInt() bool    { return !z.nan }
func (z *Big) Copy(x *Big) *Big {
	z.n.Set(&x.n)
	z.exp, z.nan = x.exp, x.nan
	return z
}
func (z *Big) Set(x *Big) *Big { return z.Copy(x) }
func (z *Big) Neg(x *Big) *Big { z.Copy(x); z.n.Neg(&z.n); return z }
func (z *Big) Abs(x *Big) *Big { z.Copy(x); z.n.Abs(&z.n); return z }
func (z *Big) IsNaN(q int) bool { return z.nan }
