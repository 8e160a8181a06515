package c10

import (
	"math/big"

	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/verifh/vh"
)

var digits34 = new(big.Int).Mul(big.NewInt(1e17), big.NewInt(1e17))

// inputs: any age, elapsed time, transfer and balance; the aged age fits.
func setup() (age, since, qty, bal int64, aged *big.Int) {
	age, since, qty, bal = vh.I64("age"), vh.I64("since"), vh.I64("qty"), vh.I64("bal")
	aged = new(big.Int).Add(big.NewInt(age), big.NewInt(since))
	vh.Assume(aged.IsInt64())
	return
}

func CheckIncoming() {
	age, since, qty, bal, aged := setup()
	vh.Assume(qty >= 0)
	prod := new(big.Int).Mul(aged, big.NewInt(bal))
	vh.Assume(prod.CmpAbs(digits34) < 0)
	nb := new(big.Int).Add(big.NewInt(bal), big.NewInt(qty))
	d := types.Duration(age)
	err := (&d).UpdateWeightedAverageAge(types.Duration(since), types.Ndau(qty), types.Ndau(bal))
	if nb.IsInt64() && nb.Sign() > 0 {
		vh.Assert("errs iff the scaled age overflows", (err == nil) == new(big.Int).Quo(prod, nb).IsInt64())
	} else {
		vh.Assert("errs iff the new balance overflows", (err != nil) == !nb.IsInt64())
	}
	if err != nil {
		vh.Assert("an error leaves the age unchanged", int64(d) == age)
		return
	}
	vh.Observe("d", int64(d))
	if nb.Sign() <= 0 {
		vh.Assert("empty account just ages", big.NewInt(int64(d)).Cmp(aged) == 0)
		return
	}
	vh.Assert("age scaled by previous/new balance", big.NewInt(int64(d)).Cmp(new(big.Int).Quo(prod, nb)) == 0)
}

func CheckOutgoing() {
	age, since, qty, bal, aged := setup()
	vh.Assume(qty < 0)
	d := types.Duration(age)
	err := (&d).UpdateWeightedAverageAge(types.Duration(since), types.Ndau(qty), types.Ndau(bal))
	vh.Assert("an outgoing transfer succeeds", err == nil)
	vh.Assert("and only ages the account", big.NewInt(int64(d)).Cmp(aged) == 0)
	vh.Observe("d", int64(d))
}
