package c01

import (
	"math/big"

	"github.com/ndau/ndaumath/pkg/ndauerr"
	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/verifh/vh"
)

type num = int64

func bi(v num) *big.Int { return new(big.Int).SetInt64(v) }

// exact: (r, err) is the exact value e if e fits the type, otherwise the
// given error and zero.
func exact(label string, r num, err error, e *big.Int, want error) {
	fits := e.IsInt64()
	vh.Assert(label+" errs iff out of range", (err == nil) == fits)
	if err != nil {
		vh.Assert(label+" error value", err == want)
		return
	}
	vh.Assert(label+" exact", bi(r).Cmp(e) == 0)
	vh.Observe(label, r)
}

func CheckAdd() {
	a, b := vh.I64("a"), vh.I64("b")
	r, err := signed.Add(a, b)
	exact("Add", r, err, new(big.Int).Add(bi(a), bi(b)), ndauerr.ErrOverflow)
}

func CheckSub() {
	a, b := vh.I64("a"), vh.I64("b")
	r, err := signed.Sub(a, b)
	exact("Sub", r, err, new(big.Int).Sub(bi(a), bi(b)), ndauerr.ErrOverflow)
}

func CheckMul() {
	a, b := vh.I64("a"), vh.I64("b")
	r, err := signed.Mul(a, b)
	p := new(big.Int).Mul(bi(a), bi(b))
	vh.Assume(p.CmpAbs(digits34) < 0)
	exact("Mul", r, err, p, ndauerr.ErrOverflow)
}

func CheckDiv() {
	a, b := vh.I64("a"), vh.I64("b")
	r, err := signed.Div(a, b)
	if b == 0 {
		vh.Assert("Div by zero", err == ndauerr.ErrDivideByZero)
		return
	}
	exact("Div", r, err, new(big.Int).Quo(bi(a), bi(b)), ndauerr.ErrMath)
}

func CheckMod() {
	a, b := vh.I64("a"), vh.I64("b")
	r, err := signed.Mod(a, b)
	if b == 0 {
		vh.Assert("Mod by zero", err == ndauerr.ErrDivideByZero)
		return
	}
	exact("Mod", r, err, new(big.Int).Rem(bi(a), bi(b)), ndauerr.ErrMath)
}

func CheckDivMod() {
	a, b := vh.I64("a"), vh.I64("b")
	q, r, err := signed.DivMod(a, b)
	if b == 0 {
		vh.Assert("DivMod by zero", err == ndauerr.ErrDivideByZero)
		return
	}
	eq, er := new(big.Int).QuoRem(bi(a), bi(b), new(big.Int))
	fits := eq.IsInt64()
	vh.Assert("DivMod errs iff out of range", (err == nil) == fits)
	if err == nil {
		vh.Assert("DivMod quotient", bi(q).Cmp(eq) == 0)
		vh.Assert("DivMod remainder", bi(r).Cmp(er) == 0)
		vh.Observe("q", q)
	} else {
		vh.Assert("DivMod error value", err == ndauerr.ErrMath)
	}
}

// the decimal library keeps 34 significant digits
var digits34 = new(big.Int).Mul(big.NewInt(1e17), big.NewInt(1e17))

func CheckMulDiv() {
	v, n, d := vh.I64("v"), vh.I64("n"), vh.I64("d")
	p := new(big.Int).Mul(bi(v), bi(n))
	vh.Assume(p.CmpAbs(digits34) < 0)
	r, err := signed.MulDiv(v, n, d)
	if d == 0 {
		vh.Assert("MulDiv by zero", err == ndauerr.ErrDivideByZero)
		return
	}
	exact("MulDiv", r, err, new(big.Int).Quo(p, bi(d)), ndauerr.ErrOverflow)
}
