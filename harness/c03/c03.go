package c03

import (
	"math/big"

	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/unsigned"
	"github.com/ndau/ndaumath/verifh/vh"
)

// denominators beyond this must be refused (ten times it must fit half the type)
const (
	limU = uint64(1<<64-1) / 2 / 10
	limS = int64(1<<63-1) / 2 / 10
)

// exact covers denominators up to 10^16: beyond that the products exceed the
// decimal library's 34 digits.
const limExact = 10000000000000000

// series computes 10*d*e^(n/d) with each power of the fraction truncated to an
// integer, as documented for ExpFrac, in arbitrary precision.
func series(n, d *big.Int) *big.Int {
	N := new(big.Int).Mul(n, big.NewInt(10))
	D := new(big.Int).Mul(d, big.NewInt(10))
	sum := new(big.Int).Add(D, N)
	p := N
	f := big.NewInt(1)
	for k := int64(2); k <= 20; k++ {
		p = new(big.Int).Quo(new(big.Int).Mul(p, N), D)
		f.Mul(f, big.NewInt(k))
		sum.Add(sum, new(big.Int).Quo(p, f))
	}
	return sum
}

func near(r, n, d *big.Int) {
	s := series(n, d)
	// |10 r - s| <= 30: three units in the last place
	diff := new(big.Int).Sub(new(big.Int).Mul(r, big.NewInt(10)), s)
	vh.Assert("agrees with the Taylor series within 3 units", diff.CmpAbs(big.NewInt(30)) <= 0)
	vh.Assert("at least 1+x", r.Cmp(new(big.Int).Add(n, d)) >= 0)
}

func CheckUnsigned() {
	vh.NoMerge()
	n, d := vh.U64("n"), vh.U64("d")
	vh.Assume(d >= 1 && d <= limExact && n <= d)
	r, err := unsigned.ExpFrac(n, d)
	vh.Assert("no error in range", err == nil)
	vh.Observe("r", r)
	near(new(big.Int).SetUint64(r), new(big.Int).SetUint64(n), new(big.Int).SetUint64(d))
}

func CheckSigned() {
	vh.NoMerge()
	n, d := vh.I64("n"), vh.I64("d")
	vh.Assume(d >= 1 && d <= limExact && n >= 0 && n <= d)
	r, err := signed.ExpFrac(n, d)
	vh.Assert("no error in range", err == nil)
	vh.Observe("r", r)
	near(big.NewInt(r), big.NewInt(n), big.NewInt(d))
}

func CheckUnsignedError() {
	vh.NoMerge()
	n, d := vh.U64("n"), vh.U64("d")
	vh.Assume(n > d || d > limU)
	_, err := unsigned.ExpFrac(n, d)
	vh.Assert("unsigned: error outside the range", err != nil)
}

func CheckSignedError() {
	vh.NoMerge()
	n, d := vh.I64("n"), vh.I64("d")
	vh.Assume(n > d || d > limS || n < 0 || d < 0)
	_, err := signed.ExpFrac(n, d)
	vh.Assert("signed: error outside the range", err != nil)
}

func CheckZeroDenominator() {
	r, err := unsigned.ExpFrac(0, 0)
	vh.Assert("unsigned 0/0 gives zero or an error", err != nil || r == 0)
	q, err := signed.ExpFrac(0, 0)
	vh.Assert("signed 0/0 gives zero or an error", err != nil || q == 0)
}
