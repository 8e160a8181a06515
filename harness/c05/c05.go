package c05

import (
	"math/big"

	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/verifh/vh"
)

func ndau(name string) types.Ndau { return types.Ndau(vh.I64(name)) }

func CheckAdd() {
	a, b := ndau("a"), ndau("b")
	r, err := a.Add(b)
	e := new(big.Int).Add(big.NewInt(int64(a)), big.NewInt(int64(b)))
	vh.Assert("Add errs iff the sum does not fit", (err == nil) == e.IsInt64())
	vh.Assert("Add exact", err != nil || big.NewInt(int64(r)).Cmp(e) == 0)
	vh.Observe("r", int64(r))
}

func CheckSub() {
	a, b := ndau("a"), ndau("b")
	r, err := a.Sub(b)
	e := new(big.Int).Sub(big.NewInt(int64(a)), big.NewInt(int64(b)))
	vh.Assert("Sub errs iff the difference does not fit", (err == nil) == e.IsInt64())
	vh.Assert("Sub exact", err != nil || big.NewInt(int64(r)).Cmp(e) == 0)
	vh.Observe("r", int64(r))
}

func CheckCompare() {
	a, b := ndau("a"), ndau("b")
	c := a.Compare(b)
	vh.Assert("Compare is -1, 0 or 1", c == -1 || c == 0 || c == 1)
	vh.Assert("Compare zero iff equal", (c == 0) == (a == b))
	vh.Assert("Compare negative iff less", (c < 0) == (int64(a) < int64(b)))
	vh.Assert("Compare antisymmetric", b.Compare(a) == -c)
	d := ndau("d")
	vh.Assert("Compare transitive", !(c <= 0 && b.Compare(d) <= 0) || a.Compare(d) <= 0)
}

func CheckAbs() {
	a := ndau("a")
	vh.Assume(int64(a) != -1<<63)
	m := a.Abs()
	w := int64(a)
	if w < 0 {
		w = -w // not the minimum, so exact
	}
	vh.Assert("Abs is the magnitude", int64(m) == w)
	vh.Observe("m", int64(m))
}
