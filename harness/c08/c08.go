package c08

import (
	"math/big"

	"github.com/ndau/ndaumath/pkg/constants"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/verifh/vh"
)

func ts(name string) types.Timestamp {
	t := vh.I64(name)
	vh.Assume(t >= constants.MinTimestamp && t <= constants.MaxTimestamp)
	return types.Timestamp(t)
}

func clamp(v *big.Int) int64 {
	if v.Cmp(big.NewInt(constants.MinTimestamp)) < 0 {
		return constants.MinTimestamp
	}
	if v.Cmp(big.NewInt(constants.MaxTimestamp)) > 0 {
		return constants.MaxTimestamp
	}
	return v.Int64()
}

func CheckAdd() {
	t, d := ts("t"), vh.I64("d")
	r := t.Add(types.Duration(d))
	vh.Assert("Add is the clamped sum", int64(r) == clamp(new(big.Int).Add(big.NewInt(int64(t)), big.NewInt(d))))
	vh.Observe("r", int64(r))
}

func CheckSub() {
	t, d := ts("t"), vh.I64("d")
	r := t.Sub(types.Duration(d))
	vh.Assert("Sub is the clamped difference", int64(r) == clamp(new(big.Int).Sub(big.NewInt(int64(t)), big.NewInt(d))))
	vh.Observe("r", int64(r))
}

func CheckSince() {
	a, b := ts("a"), ts("b")
	d := a.Since(b)
	vh.Assert("Since is the exact difference", big.NewInt(int64(d)).Cmp(new(big.Int).Sub(big.NewInt(int64(a)), big.NewInt(int64(b)))) == 0)
	vh.Assert("adding Since gives the later time back", b.Add(d) == a)
	vh.Assert("subtracting Since gives the earlier time back", a.Sub(d) == b)
	vh.Observe("d", int64(d))
}

func CheckCompare() {
	a, b, d := ts("a"), ts("b"), ts("d")
	c := a.Compare(b)
	vh.Assert("Compare is -1, 0 or 1", c == -1 || c == 0 || c == 1)
	vh.Assert("Compare zero iff equal", (c == 0) == (a == b))
	vh.Assert("Compare negative iff earlier", (c < 0) == (int64(a) < int64(b)))
	vh.Assert("Compare antisymmetric", b.Compare(a) == -c)
	vh.Assert("Compare transitive", !(c <= 0 && b.Compare(d) <= 0) || a.Compare(d) <= 0)
}
