package exec

import (
	"math/big"

	"verif/engine/sym"
)

func init() {
	const bp = "(*math/big.Int)."
	const dp = "(*github.com/ericlagergren/decimal.Big)."
	const d0 = "github.com/ericlagergren/decimal."
	ld := func(x *Exec, s *State, v Value) *sym.Term {
		t, ok := x.load(s, x.ptrOf(s, v)).(*sym.Term)
		if !ok {
			panic(unsup{"big value"})
		}
		return t
	}
	st := func(x *Exec, s *State, v Value, t *sym.Term) Value {
		x.store(s, x.ptrOf(s, v), t)
		return v
	}
	m := moreIntrinsics
	alloc := func(x *Exec, s *State, t *sym.Term) Value {
		return Ptr{Obj: x.newObj(s, t, 0)}
	}
	lim, _ := new(big.Int).SetString("9999999999999999999999999999999999", 10) // 34 digits
	round := func(x *Exec, s *State, t *sym.Term) *sym.Term {
		lo, hi := t.IRange()
		if lo != nil && hi != nil && hi.CmpAbs(lim) <= 0 && lo.CmpAbs(lim) <= 0 {
			return t
		}
		x.note("decimal intermediate results assumed to fit 34 digits (|r| < 10^34); larger ones are rounded by the library and outside the claim")
		x.assume(s, x.c.And(x.c.ILe(x.c.Int(new(big.Int).Neg(lim)), t), x.c.ILe(t, x.c.Int(lim))))
		return t
	}
	abs := func(x *Exec, t *sym.Term) *sym.Term {
		return x.c.Ite(x.c.ILt(t, x.c.IntC(0)), x.c.INeg(t), t)
	}
	quorem := func(x *Exec, s *State, a, b *sym.Term) (*sym.Term, *sym.Term) {
		if x.decide(s, x.c.Eq(b, x.c.IntC(0))) {
			x.rtPanic("division by zero")
		}
		return x.c.IQuo(a, b), x.c.IRem(a, b)
	}
	// Euclidean division
	divmod := func(x *Exec, s *State, a, b *sym.Term) (*sym.Term, *sym.Term) {
		q, r := quorem(x, s, a, b)
		neg := x.c.ILt(r, x.c.IntC(0))
		bneg := x.c.ILt(b, x.c.IntC(0))
		q2 := x.c.Ite(neg, x.c.Ite(bneg, x.c.IAdd(q, x.c.IntC(1)), x.c.ISub(q, x.c.IntC(1))), q)
		r2 := x.c.Ite(neg, x.c.IAdd(r, abs(x, b)), r)
		return q2, r2
	}
	i64lo, i64hi := big.NewInt(-1<<63), big.NewInt(1<<63-1)
	u64hi := new(big.Int).SetUint64(1<<64 - 1)
	inR := func(x *Exec, t *sym.Term, lo, hi *big.Int) *sym.Term {
		return x.c.And(x.c.ILe(x.c.Int(lo), t), x.c.ILe(t, x.c.Int(hi)))
	}
	bin := func(f func(x *Exec, s *State, a, b *sym.Term) *sym.Term, dec bool) intrinsic {
		return func(x *Exec, s *State, c *callCtx, a []Value) Value {
			t := f(x, s, ld(x, s, a[1]), ld(x, s, a[2]))
			if dec {
				t = round(x, s, t)
			}
			return st(x, s, a[0], t)
		}
	}
	add := func(x *Exec, s *State, a, b *sym.Term) *sym.Term { return x.c.IAdd(a, b) }
	sub := func(x *Exec, s *State, a, b *sym.Term) *sym.Term { return x.c.ISub(a, b) }
	mul := func(x *Exec, s *State, a, b *sym.Term) *sym.Term { return x.c.IMul(a, b) }
	quo := func(x *Exec, s *State, a, b *sym.Term) *sym.Term { q, _ := quorem(x, s, a, b); return q }
	rem := func(x *Exec, s *State, a, b *sym.Term) *sym.Term { _, r := quorem(x, s, a, b); return r }
	div := func(x *Exec, s *State, a, b *sym.Term) *sym.Term { q, _ := divmod(x, s, a, b); return q }
	mod := func(x *Exec, s *State, a, b *sym.Term) *sym.Term { _, r := divmod(x, s, a, b); return r }
	cmp := func(x *Exec, a, b *sym.Term) Value {
		return x.c.Ite(x.c.Eq(a, b), x.c.BV(64, 0), x.c.Ite(x.c.ILt(a, b), x.c.BV(64, ^uint64(0)), x.c.BV(64, 1)))
	}
	sign := func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return cmp(x, ld(x, s, a[0]), x.c.IntC(0))
	}
	m["math/big.NewInt"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return alloc(x, s, x.c.IFromS(a[0].(*sym.Term)))
	}
	m[bp+"SetInt64"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return st(x, s, a[0], x.c.IFromS(a[1].(*sym.Term)))
	}
	m[bp+"SetUint64"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return st(x, s, a[0], x.c.IFromU(a[1].(*sym.Term)))
	}
	m[bp+"Set"] = func(x *Exec, s *State, c *callCtx, a []Value) Value { return st(x, s, a[0], ld(x, s, a[1])) }
	m[bp+"Add"] = bin(add, false)
	m[bp+"Sub"] = bin(sub, false)
	m[bp+"Mul"] = bin(mul, false)
	m[bp+"Quo"] = bin(quo, false)
	m[bp+"Rem"] = bin(rem, false)
	m[bp+"Div"] = bin(div, false)
	m[bp+"Mod"] = bin(mod, false)
	qr := func(f func(x *Exec, s *State, a, b *sym.Term) (*sym.Term, *sym.Term), dec bool) intrinsic {
		return func(x *Exec, s *State, c *callCtx, a []Value) Value {
			q, r := f(x, s, ld(x, s, a[1]), ld(x, s, a[2]))
			if dec {
				q, r = round(x, s, q), round(x, s, r)
			}
			st(x, s, a[0], q)
			st(x, s, a[3], r)
			return &Tuple{[]Value{a[0], a[3]}}
		}
	}
	m[bp+"QuoRem"] = qr(quorem, false)
	m[bp+"DivMod"] = qr(divmod, false)
	m[bp+"Neg"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return st(x, s, a[0], x.c.INeg(ld(x, s, a[1])))
	}
	m[bp+"Abs"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return st(x, s, a[0], abs(x, ld(x, s, a[1])))
	}
	m[bp+"Cmp"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return cmp(x, ld(x, s, a[0]), ld(x, s, a[1]))
	}
	m[bp+"CmpAbs"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return cmp(x, abs(x, ld(x, s, a[0])), abs(x, ld(x, s, a[1])))
	}
	m[bp+"Sign"] = sign
	m[bp+"IsInt64"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return inR(x, ld(x, s, a[0]), i64lo, i64hi)
	}
	m[bp+"IsUint64"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return inR(x, ld(x, s, a[0]), new(big.Int), u64hi)
	}
	m[bp+"Int64"] = func(x *Exec, s *State, c *callCtx, a []Value) Value { return x.c.IToBV(ld(x, s, a[0]), 64) }
	m[bp+"Uint64"] = m[bp+"Int64"]
	m[bp+"Lsh"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		n := x.concretize(s, a[2].(*sym.Term))
		return st(x, s, a[0], x.c.IMul(x.c.Int(new(big.Int).Lsh(big.NewInt(1), uint(n))), ld(x, s, a[1])))
	}
	m[bp+"Exp"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		p, q := ld(x, s, a[1]), ld(x, s, a[2])
		mp := a[3].(Ptr)
		if !p.IsConst() || !q.IsConst() {
			panic(unsup{"symbolic Exp"})
		}
		var md *big.Int
		if mp.Obj != 0 {
			mt := ld(x, s, mp)
			if !mt.IsConst() {
				panic(unsup{"symbolic Exp"})
			}
			md = mt.B
		}
		return st(x, s, a[0], x.c.Int(new(big.Int).Exp(p.B, q.B, md)))
	}
	m[bp+"SetString"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		v, ok := new(big.Int).SetString(argStr(a[1]), int(a[2].(*sym.Term).C))
		if !ok {
			return &Tuple{[]Value{Ptr{}, x.c.False}}
		}
		st(x, s, a[0], x.c.Int(v))
		return &Tuple{[]Value{a[0], x.c.True}}
	}
	m[bp+"SetBytes"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return st(x, s, a[0], x.bytesToInt(x.sliceBytes(s, a[1].(SliceV))))
	}

	// decimal
	m[d0+"WithContext"] = func(x *Exec, s *State, c *callCtx, a []Value) Value { return alloc(x, s, x.c.IntC(0)) }
	m[d0+"New"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		if t := a[1].(*sym.Term); !t.IsConst() || t.C != 0 {
			panic(unsup{"decimal scale"})
		}
		return alloc(x, s, x.c.IFromS(a[0].(*sym.Term)))
	}
	m[dp+"SetMantScale"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		if t := a[2].(*sym.Term); !t.IsConst() || t.C != 0 {
			panic(unsup{"decimal scale"})
		}
		return st(x, s, a[0], x.c.IFromS(a[1].(*sym.Term)))
	}
	m[dp+"SetUint64"] = m[bp+"SetUint64"]
	m[dp+"Copy"] = m[bp+"Set"]
	m[dp+"Set"] = m[bp+"Set"]
	m[dp+"Neg"] = m[bp+"Neg"]
	m[dp+"Abs"] = m[bp+"Abs"]
	m[dp+"Add"] = bin(add, true)
	m[dp+"Sub"] = bin(sub, true)
	m[dp+"Mul"] = bin(mul, true)
	noz := func(f func(x *Exec, s *State, a, b *sym.Term) (*sym.Term, *sym.Term)) func(x *Exec, s *State, a, b *sym.Term) (*sym.Term, *sym.Term) {
		return func(x *Exec, s *State, a, b *sym.Term) (*sym.Term, *sym.Term) {
			if x.decide(s, x.c.Eq(b, x.c.IntC(0))) {
				panic(unsup{"decimal division by zero"})
			}
			return f(x, s, a, b)
		}
	}
	dqr := noz(quorem)
	m[dp+"QuoInt"] = bin(func(x *Exec, s *State, a, b *sym.Term) *sym.Term { q, _ := dqr(x, s, a, b); return q }, true)
	m[dp+"Rem"] = bin(func(x *Exec, s *State, a, b *sym.Term) *sym.Term { _, r := dqr(x, s, a, b); return r }, true)
	m[dp+"QuoRem"] = qr(dqr, true)
	toI := func(lo, hi *big.Int) intrinsic {
		return func(x *Exec, s *State, c *callCtx, a []Value) Value {
			t := ld(x, s, a[0])
			ok := inR(x, t, lo, hi)
			if x.decide(s, ok) {
				x.restate(s, ok) // even when implied: the bounds help the solvers
				return &Tuple{[]Value{x.c.IToBV(t, 64), x.c.True}}
			}
			return &Tuple{[]Value{x.c.BV(64, 0), x.c.False}}
		}
	}
	m[dp+"Int64"] = toI(i64lo, i64hi)
	m[dp+"Uint64"] = toI(new(big.Int), u64hi)
	m[dp+"Cmp"] = m[bp+"Cmp"]
	m[dp+"Sign"] = sign
}

// restate records a condition already known to hold as an explicit conjunct.
func (x *Exec) restate(s *State, t *sym.Term) {
	if t.IsConst() {
		return
	}
	if t.Op == sym.OAnd {
		for _, a := range t.A {
			x.restate(s, a)
		}
		return
	}
	for _, u := range s.conj {
		if u == t {
			return
		}
	}
	s.conj = append(s.conj, t)
}

// bytesToInt is the big-endian unsigned value.
func (x *Exec) bytesToInt(b []*sym.Term) *sym.Term {
	var parts []*sym.Term
	// group into 64-bit words to keep the sum short
	n := len(b)
	for end := n; end > 0; end -= 8 {
		st := end - 8
		if st < 0 {
			st = 0
		}
		w := x.c.Concat(b[st:end]...)
		parts = append(parts, x.c.IMul(x.c.Int(new(big.Int).Lsh(big.NewInt(1), uint(8*(n-end)))), x.c.IFromU(w)))
	}
	if len(parts) == 0 {
		return x.c.IntC(0)
	}
	return x.c.IAdd(parts...)
}
