package sym

import (
	"fmt"
	"math/big"
	"strings"
)

// Integer encoding: every bit-vector term becomes an integer expression
// congruent to its value modulo 2^w, with an interval; normalisation is lazy.

type ie struct {
	s      string
	lo, hi *big.Int
}

type bnd struct{ ulo, uhi, slo, shi *big.Int }

type IntEnc struct {
	c     *Ctx
	sb    *strings.Builder
	raw   map[*Term]ie
	nu    map[*Term]ie
	ns    map[*Term]ie
	bools map[*Term]string
	bnds  map[*Term]*bnd
	n     int
	memo  map[string]string // definitions by expression
	qr    map[string][2]ie
	fac   map[string][2]ie // factors of products
	// side conditions asserted globally (definitions of fresh symbols)
	NonLinear bool
}

func NewIntEnc(c *Ctx) *IntEnc {
	return &IntEnc{c: c, sb: &strings.Builder{}, raw: map[*Term]ie{}, nu: map[*Term]ie{}, ns: map[*Term]ie{}, bools: map[*Term]string{}, bnds: map[*Term]*bnd{}, memo: map[string]string{}, qr: map[string][2]ie{}, fac: map[string][2]ie{}}
}

func pow2(w int) *big.Int { return new(big.Int).Lsh(bigOne, uint(w)) }

func lit(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

// Learn records interval facts from a conjunct known to hold.
func (e *IntEnc) Learn(t *Term) {
	pos := true
	for t.Op == ONot {
		t = t.A[0]
		pos = !pos
	}
	if t.Op == OAnd && pos {
		for _, a := range t.A {
			e.Learn(a)
		}
		return
	}
	get := func(x *Term) *bnd {
		b := e.bnds[x]
		if b == nil {
			b = &bnd{}
			e.bnds[x] = b
		}
		return b
	}
	setLo := func(p **big.Int, v *big.Int) {
		if *p == nil || (*p).Cmp(v) < 0 {
			*p = v
		}
	}
	setHi := func(p **big.Int, v *big.Int) {
		if *p == nil || (*p).Cmp(v) > 0 {
			*p = v
		}
	}
	// relations between two non-constant terms propagate known bounds
	rel := func(a, b *Term, lo, hi func(*bnd) **big.Int) {
		d := bigOne
		if !pos { // not (a<b): b<=a
			a, b, d = b, a, bigZero
		}
		x, y := get(a), get(b)
		if h := *hi(y); h != nil {
			setHi(hi(x), new(big.Int).Sub(h, d))
		}
		if l := *lo(x); l != nil {
			setLo(lo(y), new(big.Int).Add(l, d))
		}
	}
	if (t.Op == OUlt || t.Op == OSlt || t.Op == OILt) && !t.A[0].IsConst() && !t.A[1].IsConst() {
		if t.Op == OUlt {
			rel(t.A[0], t.A[1], func(b *bnd) **big.Int { return &b.ulo }, func(b *bnd) **big.Int { return &b.uhi })
		} else {
			rel(t.A[0], t.A[1], func(b *bnd) **big.Int { return &b.slo }, func(b *bnd) **big.Int { return &b.shi })
		}
		return
	}
	switch t.Op {
	case OUlt:
		a, b := t.A[0], t.A[1]
		if b.IsConst() {
			k := new(big.Int).SetUint64(b.C)
			if pos {
				setHi(&get(a).uhi, new(big.Int).Sub(k, bigOne))
			} else {
				setLo(&get(a).ulo, k)
			}
		}
		if a.IsConst() {
			k := new(big.Int).SetUint64(a.C)
			if pos {
				setLo(&get(b).ulo, new(big.Int).Add(k, bigOne))
			} else {
				setHi(&get(b).uhi, k)
			}
		}
	case OSlt:
		a, b := t.A[0], t.A[1]
		if b.IsConst() {
			k := big.NewInt(sx(b.C, b.W))
			if pos {
				setHi(&get(a).shi, new(big.Int).Sub(k, bigOne))
			} else {
				setLo(&get(a).slo, k)
			}
		}
		if a.IsConst() {
			k := big.NewInt(sx(a.C, a.W))
			if pos {
				setLo(&get(b).slo, new(big.Int).Add(k, bigOne))
			} else {
				setHi(&get(b).shi, k)
			}
		}
	case OILt:
		a, b := t.A[0], t.A[1]
		if b.IsConst() {
			if pos {
				setHi(&get(a).shi, new(big.Int).Sub(b.B, bigOne))
			} else {
				setLo(&get(a).slo, b.B)
			}
		}
		if a.IsConst() {
			if pos {
				setLo(&get(b).slo, new(big.Int).Add(a.B, bigOne))
			} else {
				setHi(&get(b).shi, a.B)
			}
		}
	}
}

// close bounds: propagate between signed and unsigned views
func (e *IntEnc) closeBounds() {
	for t, b := range e.bnds {
		if t.K != KBV {
			continue
		}
		half := pow2(t.W - 1)
		if b.slo != nil && b.slo.Sign() >= 0 { // nonneg signed => same unsigned
			if b.ulo == nil || b.ulo.Cmp(b.slo) < 0 {
				b.ulo = b.slo
			}
			hi := new(big.Int).Sub(half, bigOne)
			if b.shi != nil {
				hi = bmin(hi, b.shi)
			}
			if b.uhi == nil || b.uhi.Cmp(hi) > 0 {
				b.uhi = hi
			}
		}
		if b.uhi != nil && b.uhi.Cmp(half) < 0 {
			lo := new(big.Int)
			if b.ulo != nil {
				lo = b.ulo
			}
			if b.slo == nil || b.slo.Cmp(lo) < 0 {
				b.slo = lo
			}
			if b.shi == nil || b.shi.Cmp(b.uhi) > 0 {
				b.shi = b.uhi
			}
		}
	}
}

func (e *IntEnc) def(sort, expr string) string {
	if n, ok := e.memo[sort+expr]; ok {
		return n
	}
	e.n++
	n := fmt.Sprintf("$i%d", e.n)
	e.memo[sort+expr] = n
	fmt.Fprintf(e.sb, "(define-fun %s () %s %s)\n", n, sort, expr)
	return n
}

func (e *IntEnc) freshInt() string {
	e.n++
	n := fmt.Sprintf("$q%d", e.n)
	fmt.Fprintf(e.sb, "(declare-const %s Int)\n", n)
	return n
}

func (e *IntEnc) Take() string {
	s := e.sb.String()
	e.sb.Reset()
	return s
}

func within(x ie, lo, hi *big.Int) bool { return x.lo.Cmp(lo) >= 0 && x.hi.Cmp(hi) <= 0 }

func (e *IntEnc) tightenS(t *Term, x ie) ie {
	if b := e.bnds[t]; b != nil {
		if b.slo != nil && b.slo.Cmp(x.lo) > 0 {
			x.lo = b.slo
		}
		if b.shi != nil && b.shi.Cmp(x.hi) < 0 {
			x.hi = b.shi
		}
	}
	return x
}
func (e *IntEnc) tightenU(t *Term, x ie) ie {
	if b := e.bnds[t]; b != nil {
		if b.ulo != nil && b.ulo.Cmp(x.lo) > 0 {
			x.lo = b.ulo
		}
		if b.uhi != nil && b.uhi.Cmp(x.hi) < 0 {
			x.hi = b.uhi
		}
	}
	return x
}

func (e *IntEnc) norm(x ie, lo *big.Int, w int) ie {
	m := pow2(w)
	hi := new(big.Int).Sub(new(big.Int).Add(lo, m), bigOne)
	if within(x, lo, hi) {
		return x
	}
	loM := new(big.Int).Sub(lo, m)
	hiM := new(big.Int).Add(hi, m)
	if within(x, loM, hiM) {
		var s string
		over := x.hi.Cmp(hi) > 0
		under := x.lo.Cmp(lo) < 0
		inner := x.s
		if over {
			inner = fmt.Sprintf("(ite (> %s %s) (- %s %s) %s)", x.s, lit(hi), x.s, lit(m), x.s)
		}
		if under {
			s = fmt.Sprintf("(ite (< %s %s) (+ %s %s) %s)", x.s, lit(lo), x.s, lit(m), inner)
		} else {
			s = inner
		}
		return ie{e.def("Int", s), lo, hi}
	}
	if lo.Sign() == 0 {
		return ie{e.def("Int", fmt.Sprintf("(mod %s %s)", x.s, lit(m))), lo, hi}
	}
	r := e.def("Int", fmt.Sprintf("(mod (- %s %s) %s)", x.s, lit(lo), lit(m)))
	return ie{e.def("Int", fmt.Sprintf("(+ %s %s)", r, lit(lo))), lo, hi}
}

// U returns the value of BV term t in [0,2^w).
func (e *IntEnc) U(t *Term) ie {
	if x, ok := e.nu[t]; ok {
		return x
	}
	x := e.tightenU(t, e.norm(e.Raw(t), new(big.Int), t.W))
	if l, h := t.URange(); true {
		if L := new(big.Int).SetUint64(l); L.Cmp(x.lo) > 0 {
			x.lo = L
		}
		if H := new(big.Int).SetUint64(h); H.Cmp(x.hi) < 0 {
			x.hi = H
		}
	}
	e.nu[t] = x
	return x
}

// S returns the value of BV term t in [-2^(w-1),2^(w-1)).
func (e *IntEnc) S(t *Term) ie {
	if x, ok := e.ns[t]; ok {
		return x
	}
	x := e.tightenS(t, e.norm(e.Raw(t), new(big.Int).Neg(pow2(t.W-1)), t.W))
	if l, h := t.SRange(); true {
		if L := big.NewInt(l); L.Cmp(x.lo) > 0 {
			x.lo = L
		}
		if H := big.NewInt(h); H.Cmp(x.hi) < 0 {
			x.hi = H
		}
	}
	e.ns[t] = x
	return x
}

func mulIv(a, b ie) (lo, hi *big.Int) {
	ps := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
	lo, hi = ps[0], ps[0]
	for _, p := range ps {
		lo, hi = bmin(lo, p), bmax(hi, p)
	}
	return
}

// quoRem returns truncated quotient and remainder of a by b (result for b==0 unspecified here: 0 / a).
func (e *IntEnc) quoRem(a, b ie) (q, r ie) {
	if b.lo.Cmp(b.hi) == 0 && b.lo.Sign() != 0 { // constant divisor
		k := b.lo
		ab := new(big.Int).Abs(k)
		var qs string
		if a.lo.Sign() >= 0 {
			qs = fmt.Sprintf("(div %s %s)", a.s, ab)
		} else if a.hi.Sign() <= 0 {
			qs = fmt.Sprintf("(- (div (- %s) %s))", a.s, ab)
		} else {
			qs = fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a.s, a.s, ab, a.s, ab)
		}
		if k.Sign() < 0 {
			qs = "(- " + qs + ")"
		}
		c1, c2 := new(big.Int).Quo(a.lo, k), new(big.Int).Quo(a.hi, k)
		q = ie{e.def("Int", qs), bmin(c1, c2), bmax(c1, c2)}
		if a.lo.Sign() < 0 && a.hi.Sign() > 0 {
			q.lo, q.hi = bmin(q.lo, bigZero), bmax(q.hi, bigZero)
		}
		m := new(big.Int).Sub(ab, bigOne)
		r = ie{e.def("Int", fmt.Sprintf("(- %s (* %s %s))", a.s, lit(k), q.s)), new(big.Int).Neg(m), m}
		if a.lo.Sign() >= 0 {
			r.lo = new(big.Int)
		}
		if a.hi.Sign() <= 0 {
			r.hi = new(big.Int)
		}
		if a.lo.Sign() >= 0 && a.hi.Cmp(r.hi) < 0 {
			r.hi = a.hi
		}
		return
	}
	if v, ok := e.qr[a.s+"/"+b.s]; ok {
		return v[0], v[1]
	}
	defer func() { e.qr[a.s+"/"+b.s] = [2]ie{q, r} }()
	e.NonLinear = true
	qn, rn := e.freshInt(), e.freshInt()
	fmt.Fprintf(e.sb, "(assert (=> (not (= %s 0)) (and (= %s (+ (* %s %s) %s))", b.s, a.s, qn, b.s, rn)
	absb := fmt.Sprintf("(ite (>= %s 0) %s (- %s))", b.s, b.s, b.s)
	if b.lo.Sign() >= 0 {
		absb = b.s
	}
	if a.lo.Sign() >= 0 {
		fmt.Fprintf(e.sb, " (<= 0 %s) (< %s %s)", rn, rn, absb)
		if b.lo.Sign() >= 0 {
			fmt.Fprintf(e.sb, " (<= 0 %s) (<= %s %s)", qn, qn, a.s)
		}
	} else {
		fmt.Fprintf(e.sb, " (ite (>= %s 0) (and (<= 0 %s) (< %s %s)) (and (<= %s 0) (< (- %s) %s)))", a.s, rn, rn, absb, rn, rn, absb)
	}
	e.sb.WriteString(")))\n")
	fmt.Fprintf(e.sb, "(assert (=> (= %s 0) (and (= %s 0) (= %s %s))))\n", b.s, qn, rn, a.s)
	if f, ok := e.fac[a.s]; ok {
		// instances of: 0<=x, 0<=y<=b, 0<b  =>  0 <= x*y quo b <= x
		for i := 0; i < 2; i++ {
			x, y := f[i], f[1-i]
			fmt.Fprintf(e.sb, "(assert (=> (and (<= 0 %s) (<= 0 %s) (<= %s %s) (< 0 %s)) (and (<= 0 %s) (<= %s %s))))\n", x.s, y.s, y.s, b.s, b.s, qn, qn, x.s)
		}
	}
	m := bmax(new(big.Int).Abs(a.lo), new(big.Int).Abs(a.hi))
	q = ie{qn, new(big.Int).Neg(m), m}
	if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		q.lo = new(big.Int)
		if b.lo.Sign() > 0 {
			q.hi = new(big.Int).Quo(a.hi, b.lo)
			q.lo = new(big.Int).Quo(a.lo, b.hi)
		}
	}
	mb := bmax(new(big.Int).Abs(b.lo), new(big.Int).Abs(b.hi))
	mr := bmax(m, bigZero)
	if mb.Sign() > 0 && b.lo.Sign() > 0 {
		mr = bmin(mr, new(big.Int).Sub(mb, bigOne))
	}
	r = ie{rn, new(big.Int).Neg(mr), mr}
	if a.lo.Sign() >= 0 {
		r.lo = new(big.Int)
	}
	return
}

// Raw encodes a BV or Int term.
func (e *IntEnc) Raw(t *Term) ie {
	if x, ok := e.raw[t]; ok {
		return x
	}
	x := e.raw1(t)
	if t.K == KInt {
		if t.ilo != nil && t.ilo.Cmp(x.lo) > 0 {
			x.lo = t.ilo
		}
		if t.ihi != nil && t.ihi.Cmp(x.hi) < 0 {
			x.hi = t.ihi
		}
		x = e.tightenS(t, x)
	}
	e.raw[t] = x
	return x
}

var inf = new(big.Int).Lsh(bigOne, 4096)
var ninf = new(big.Int).Neg(inf)

func (e *IntEnc) raw1(t *Term) ie {
	switch t.Op {
	case OConst:
		if t.K == KInt {
			return ie{lit(t.B), t.B, t.B}
		}
		v := big.NewInt(sx(t.C, t.W))
		return ie{lit(v), v, v}
	case OVar:
		fmt.Fprintf(e.sb, "(declare-const %s Int)\n", VarName(t))
		var lo, hi *big.Int
		if t.K == KInt {
			lo, hi = t.ilo, t.ihi
			if lo == nil {
				lo = ninf
			}
			if hi == nil {
				hi = inf
			}
		} else if t.Signed {
			lo, hi = new(big.Int).Neg(pow2(t.W-1)), new(big.Int).Sub(pow2(t.W-1), bigOne)
		} else {
			lo, hi = new(big.Int), new(big.Int).Sub(pow2(t.W), bigOne)
		}
		x := ie{VarName(t), lo, hi}
		if t.K == KBV && !t.Signed {
			x = e.tightenU(t, x)
		} else {
			x = e.tightenS(t, x)
		}
		// asserted with the tightened interval: the learned facts are conjuncts of the query
		if x.lo.Cmp(ninf) > 0 {
			fmt.Fprintf(e.sb, "(assert (>= %s %s))\n", VarName(t), lit(x.lo))
		}
		if x.hi.Cmp(inf) < 0 {
			fmt.Fprintf(e.sb, "(assert (<= %s %s))\n", VarName(t), lit(x.hi))
		}
		return x
	case OAdd, OIAdd:
		lo, hi := new(big.Int), new(big.Int)
		ss := make([]string, len(t.A))
		for i, a := range t.A {
			x := e.Raw(a)
			ss[i] = x.s
			lo = new(big.Int).Add(lo, x.lo)
			hi = new(big.Int).Add(hi, x.hi)
		}
		return ie{e.def("Int", "(+ "+strings.Join(ss, " ")+")"), lo, hi}
	case OMul, OIMul:
		a, b := e.Raw(t.A[0]), e.Raw(t.A[1])
		if !t.A[0].IsConst() && !t.A[1].IsConst() {
			e.NonLinear = true
			if t.Op == OMul { // keep magnitudes small
				a, b = e.best(t.A[0]), e.best(t.A[1])
			}
		}
		lo, hi := mulIv(a, b)
		n := e.def("Int", "(* "+a.s+" "+b.s+")")
		if !t.A[0].IsConst() && !t.A[1].IsConst() {
			e.fac[n] = [2]ie{a, b}
		}
		return ie{n, lo, hi}
	case OUDiv, OURem:
		a, b := e.U(t.A[0]), e.U(t.A[1])
		q, r := e.quoRem(a, b)
		if t.Op == OURem {
			return r
		}
		if b.lo.Sign() == 0 {
			m := new(big.Int).Sub(pow2(t.W), bigOne)
			return ie{e.def("Int", fmt.Sprintf("(ite (= %s 0) %s %s)", b.s, m, q.s)), new(big.Int), m}
		}
		return q
	case OSDiv, OSRem:
		a, b := e.S(t.A[0]), e.S(t.A[1])
		q, r := e.quoRem(a, b)
		if t.Op == OSRem {
			return r
		}
		if b.lo.Sign() <= 0 && b.hi.Sign() >= 0 {
			return ie{e.def("Int", fmt.Sprintf("(ite (= %s 0) (ite (>= %s 0) (- 1) 1) %s)", b.s, a.s, q.s)), bmin(q.lo, big.NewInt(-1)), bmax(q.hi, bigOne)}
		}
		return q
	case OIQuo, OIRem:
		q, r := e.quoRem(e.Raw(t.A[0]), e.Raw(t.A[1]))
		if t.Op == OIQuo {
			return q
		}
		return r
	case OConcat:
		off := t.W
		var ss []string
		lo, hi := new(big.Int), new(big.Int)
		for i, p := range t.A {
			off -= p.W
			if p.IsConst() && p.C == 0 {
				continue
			}
			var x ie
			if i == 0 && t.W == 64 && p.Op == OSext {
				x = e.S(p)
			} else {
				x = e.U(p)
			}
			k := pow2(off)
			if off == 0 {
				ss = append(ss, x.s)
			} else {
				ss = append(ss, fmt.Sprintf("(* %s %s)", k, x.s))
			}
			lo = new(big.Int).Add(lo, new(big.Int).Mul(k, x.lo))
			hi = new(big.Int).Add(hi, new(big.Int).Mul(k, x.hi))
		}
		if len(ss) == 1 {
			return ie{e.def("Int", ss[0]), lo, hi}
		}
		return ie{e.def("Int", "(+ "+strings.Join(ss, " ")+")"), lo, hi}
	case OExtract:
		lo := int(t.C)
		if lo == 0 { // congruent mod 2^w
			return e.Raw(t.A[0])
		}
		a := e.U(t.A[0])
		// top-bit test of a signed value
		if lo == t.A[0].W-1 {
			s := e.S(t.A[0])
			return ie{e.def("Int", fmt.Sprintf("(ite (< %s 0) 1 0)", s.s)), new(big.Int), bigOne}
		}
		q := e.def("Int", fmt.Sprintf("(div %s %s)", a.s, pow2(lo)))
		qi := ie{q, new(big.Int).Rsh(a.lo, uint(lo)), new(big.Int).Rsh(a.hi, uint(lo))}
		return qi
	case OSext:
		return e.S(t.A[0])
	case OIte:
		g := e.B(t.A[0])
		a, b := e.Raw(t.A[1]), e.Raw(t.A[2])
		return ie{e.def("Int", fmt.Sprintf("(ite %s %s %s)", g, a.s, b.s)), bmin(a.lo, b.lo), bmax(a.hi, b.hi)}
	case OIFromU:
		return e.U(t.A[0])
	case OIFromS:
		return e.S(t.A[0])
	case OIToBV:
		return e.Raw(t.A[0])
	case OTbl:
		if t.Orig != nil {
			ok := true
			switch t.Orig.Op {
			case OBAnd, OBOr, OXor, OShl, OLshr, OAshr, OIte:
				ok = false
			}
			if ok {
				if x, good := e.tryRaw(t.Orig); good {
					return x
				}
			}
		}
		return e.tbl(t.A[0], t.Tab, t.W)
	case OXor:
		// complement of the remaining xor
		if n := len(t.A); n == 2 && t.A[1].IsConst() && t.A[1].C == mask(t.W) {
			x := e.Raw(t.A[0])
			return ie{e.def("Int", fmt.Sprintf("(- (- 1) %s)", x.s)), new(big.Int).Sub(big.NewInt(-1), x.hi), new(big.Int).Sub(big.NewInt(-1), x.lo)}
		}
		if t.W == 1 { // parity
			var ss []string
			for _, a := range t.A {
				ss = append(ss, e.U(a).s)
			}
			return ie{e.def("Int", "(mod (+ "+strings.Join(ss, " ")+") 2)"), new(big.Int), bigOne}
		}
	}
	if t.root != nil && t.root != t {
		return e.tbl(t.root, e.c.table(t), t.W)
	}
	panic(ErrUnsupported{"int encoding of " + opNames[t.Op]})
}

func (e *IntEnc) tryRaw(t *Term) (x ie, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(ErrUnsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return e.Raw(t), true
}

func (e *IntEnc) best(t *Term) ie {
	u, s := e.U(t), e.S(t)
	du := new(big.Int).Sub(u.hi, u.lo)
	ds := new(big.Int).Sub(s.hi, s.lo)
	if du.Cmp(ds) <= 0 {
		return u
	}
	return s
}

func (e *IntEnc) tbl(root *Term, tab []uint64, w int) ie {
	var r string
	if root.K == KBool {
		return ie{e.def("Int", fmt.Sprintf("(ite %s %d %d)", e.B(root), tab[1], tab[0])), new(big.Int).SetUint64(min(tab[0], tab[1])), new(big.Int).SetUint64(max(tab[0], tab[1]))}
	}
	r = e.U(root).s
	rs := runsOf(tab)
	var sb strings.Builder
	lo, hi := tab[0], tab[0]
	for _, v := range tab {
		lo, hi = min(lo, v), max(hi, v)
	}
	for i, x := range rs {
		v := fmt.Sprint(x.base)
		if x.slope == 1 {
			d := new(big.Int).Sub(new(big.Int).SetUint64(x.base), big.NewInt(int64(x.lo)))
			v = fmt.Sprintf("(+ %s %s)", r, lit(d))
		}
		if i+1 < len(rs) {
			fmt.Fprintf(&sb, "(ite (<= %s %d) %s ", r, x.hi, v)
		} else {
			sb.WriteString(v)
		}
	}
	sb.WriteString(strings.Repeat(")", len(rs)-1))
	return ie{e.def("Int", sb.String()), new(big.Int).SetUint64(lo), new(big.Int).SetUint64(hi)}
}

// B encodes a Bool term.
func (e *IntEnc) B(t *Term) string {
	if t.Op == OConst {
		if t.C == 1 {
			return "true"
		}
		return "false"
	}
	if s, ok := e.bools[t]; ok {
		return s
	}
	s := e.b1(t)
	if t.Op != OVar {
		s = e.def("Bool", s)
	}
	e.bools[t] = s
	return s
}

func (e *IntEnc) b1(t *Term) string {
	switch t.Op {
	case OVar:
		fmt.Fprintf(e.sb, "(declare-const %s Bool)\n", VarName(t))
		return VarName(t)
	case ONot:
		return "(not " + e.B(t.A[0]) + ")"
	case OAnd:
		return "(and " + e.B(t.A[0]) + " " + e.B(t.A[1]) + ")"
	case OOr:
		return "(or " + e.B(t.A[0]) + " " + e.B(t.A[1]) + ")"
	case OIte:
		return "(ite " + e.B(t.A[0]) + " " + e.B(t.A[1]) + " " + e.B(t.A[2]) + ")"
	case OEq:
		a, b := t.A[0], t.A[1]
		if a.K == KBool {
			return "(= " + e.B(a) + " " + e.B(b) + ")"
		}
		x, y := e.Raw(a), e.Raw(b)
		if a.K == KBV {
			m := pow2(a.W)
			d1 := new(big.Int).Sub(x.hi, y.lo)
			d2 := new(big.Int).Sub(y.hi, x.lo)
			if d1.Cmp(m) >= 0 || d2.Cmp(m) >= 0 {
				x, y = e.U(a), e.U(b)
			}
		}
		return "(= " + x.s + " " + y.s + ")"
	case OUlt:
		return "(< " + e.U(t.A[0]).s + " " + e.U(t.A[1]).s + ")"
	case OSlt:
		return "(< " + e.S(t.A[0]).s + " " + e.S(t.A[1]).s + ")"
	case OILt:
		return "(< " + e.Raw(t.A[0]).s + " " + e.Raw(t.A[1]).s + ")"
	case OTbl:
		root := t.A[0]
		if root.K == KBool {
			panic("bool tbl over bool")
		}
		r := e.U(root).s
		var ors []string
		for i := 0; i < len(t.Tab); {
			if t.Tab[i] == 0 {
				i++
				continue
			}
			j := i
			for j+1 < len(t.Tab) && t.Tab[j+1] != 0 {
				j++
			}
			if i == j {
				ors = append(ors, fmt.Sprintf("(= %s %d)", r, i))
			} else {
				ors = append(ors, fmt.Sprintf("(<= %d %s %d)", i, r, j))
			}
			i = j + 1
		}
		if len(ors) == 1 {
			return ors[0]
		}
		return "(or " + strings.Join(ors, " ") + ")"
	}
	panic(ErrUnsupported{"int bool " + opNames[t.Op]})
}

// Encode produces the assertions for all conjuncts.
func (e *IntEnc) Encode(conj []*Term) (s string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(ErrUnsupported); is {
				err = u
				return
			}
			panic(r)
		}
	}()
	for i := 0; i < 3; i++ {
		for _, t := range conj {
			e.Learn(t)
		}
		e.closeBounds()
	}
	for _, t := range conj {
		b := e.B(t)
		fmt.Fprintf(e.sb, "(assert %s)\n", b)
	}
	return e.Take(), nil
}
