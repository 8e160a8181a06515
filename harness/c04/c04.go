package c04

import (
	"math/big"

	"github.com/ndau/ndaumath/pkg/unsigned"
	"github.com/ndau/ndaumath/verifh/vh"
)

// ceilExp computes ceil(e^i) with a Taylor series in fixed point with 80
// fractional digits; the truncation error (below 10^-75) cannot matter because
// the fractional part is checked to be away from 0 and 1.
func ceilExp(i int64) *big.Int {
	one := new(big.Int).Exp(big.NewInt(10), big.NewInt(80), nil)
	sum := new(big.Int)
	term := new(big.Int).Set(one)
	for k := int64(1); term.Sign() != 0; k++ {
		sum.Add(sum, term)
		term.Mul(term, big.NewInt(i))
		term.Quo(term, big.NewInt(k))
	}
	q, r := new(big.Int).QuoRem(sum, one, new(big.Int))
	eps := new(big.Int).Exp(big.NewInt(10), big.NewInt(70), nil)
	if i == 0 {
		return big.NewInt(1)
	}
	if r.Cmp(eps) < 0 || new(big.Int).Sub(one, r).Cmp(eps) < 0 {
		panic("e^i too close to an integer")
	}
	return q.Add(q, big.NewInt(1))
}

var table = func() (t [46]*big.Int) {
	for i := range t {
		t[i] = ceilExp(int64(i))
	}
	return
}()

func CheckLnInt() {
	x := vh.U64("x")
	i := unsigned.LnInt(x)
	vh.Observe("i", i)
	if x == 0 {
		vh.Assert("LnInt(0) is -1", i == -1)
		return
	}
	vh.Assert("result between 0 and 44", i >= 0 && i <= 44)
	if i < 0 || i > 44 {
		return
	}
	bx := new(big.Int).SetUint64(x)
	for k := 0; k <= 44; k++ {
		if i != k {
			continue
		}
		vh.Assert("e^LnInt(x) <= x", table[k].Cmp(bx) <= 0)
		vh.Assert("x < e^(LnInt(x)+1)", bx.Cmp(table[k+1]) < 0)
		return
	}
}

func CheckMonotone() {
	x, y := vh.U64("x"), vh.U64("y")
	vh.Assume(x <= y)
	vh.Assert("LnInt is monotone", unsigned.LnInt(x) <= unsigned.LnInt(y))
}
