package sym

import (
	"fmt"
	"math/big"
	"strings"
)

// ---- BV-mode printing ----

type Printer struct {
	c       *Ctx
	sb      *strings.Builder
	defined map[*Term]string
	muxes   map[string]string
	nmux    int
}

func NewPrinter(c *Ctx) *Printer {
	return &Printer{c: c, sb: &strings.Builder{}, defined: map[*Term]string{}, muxes: map[string]string{}}
}

// ErrUnsupported reports a construct that the chosen encoding cannot express.
type ErrUnsupported struct{ What string }

func (e ErrUnsupported) Error() string { return "encoding: " + e.What }

func (p *Printer) Take() string {
	s := p.sb.String()
	p.sb.Reset()
	return s
}

func VarName(t *Term) string { return "|" + t.Name + "|" }

func sortStr(t *Term) string {
	switch t.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", t.W)
	}
	return "Int"
}

func bvLit(v uint64, w int) string { return fmt.Sprintf("(_ bv%d %d)", v, w) }

// Ref returns an SMT expression naming t, emitting definitions as needed.
func (p *Printer) Ref(t *Term) string {
	if t.Op == OConst {
		switch t.K {
		case KBool:
			if t.C == 1 {
				return "true"
			}
			return "false"
		case KBV:
			return bvLit(t.C, t.W)
		}
	}
	if s, ok := p.defined[t]; ok {
		return s
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	stack := []fr{{t, 0}}
	kids := func(t *Term) []*Term {
		if t.Op == OTbl && t.Orig != nil {
			return t.Orig.A
		}
		return t.A
	}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		ks := kids(f.t)
		if f.i < len(ks) {
			k := ks[f.i]
			f.i++
			if k.Op != OConst {
				if _, ok := p.defined[k]; !ok {
					stack = append(stack, fr{k, 0})
				}
			}
			continue
		}
		if _, ok := p.defined[f.t]; !ok {
			p.emit(f.t)
		}
		stack = stack[:len(stack)-1]
	}
	return p.defined[t]
}

func (p *Printer) emit(t *Term) {
	if t.K == KInt {
		panic(ErrUnsupported{"integer sort in BV mode"})
	}
	if t.Op == OVar {
		fmt.Fprintf(p.sb, "(declare-const %s %s)\n", VarName(t), sortStr(t))
		p.defined[t] = VarName(t)
		return
	}
	var e string
	if t.Op == OTbl {
		if t.Orig != nil {
			e = p.expr(t.Orig)
		} else {
			e = p.tblExpr(t)
		}
	} else {
		e = p.expr(t)
	}
	n := fmt.Sprintf("$t%d", t.ID)
	fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, sortStr(t), e)
	p.defined[t] = n
}

func (p *Printer) argRef(t *Term) string {
	if t.Op == OConst {
		return p.Ref(t)
	}
	return p.defined[t]
}

func (p *Printer) expr(t *Term) string {
	a := make([]string, len(t.A))
	for i, x := range t.A {
		if x.K == KInt {
			panic(ErrUnsupported{"integer sort in BV mode"})
		}
		a[i] = p.argRef(x)
	}
	switch t.Op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.C)+t.W-1, t.C, a[0])
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, a[0])
	case OIte, OAnd, OOr, ONot, OEq, OAdd, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OXor, OShl, OLshr, OAshr, OConcat, OUlt, OSlt:
		return "(" + opNames[t.Op] + " " + strings.Join(a, " ") + ")"
	}
	panic(ErrUnsupported{"op " + opNames[t.Op]})
}

type run struct {
	lo, hi int
	base   uint64 // value at lo
	slope  int    // 0 or 1
}

func runsOf(tab []uint64) []run {
	var rs []run
	for i := 0; i < len(tab); {
		j := i + 1
		slope := 0
		if j < len(tab) && tab[j] == tab[i]+1 {
			slope = 1
			for j < len(tab) && tab[j] == tab[j-1]+1 {
				j++
			}
			if j-i == 2 && j < len(tab) && tab[j] == tab[j-1] {
				slope = 0
				j = i + 1
			}
		} else {
			for j < len(tab) && tab[j] == tab[i] {
				j++
			}
		}
		rs = append(rs, run{i, j - 1, tab[i], slope})
		i = j
	}
	return rs
}

func (p *Printer) tblExpr(t *Term) string {
	root := t.A[0]
	r := p.argRef(root)
	lit := func(v uint64) string {
		if t.K == KBool {
			if v != 0 {
				return "true"
			}
			return "false"
		}
		return bvLit(v, t.W)
	}
	if root.K == KBool {
		return fmt.Sprintf("(ite %s %s %s)", r, lit(t.Tab[1]), lit(t.Tab[0]))
	}
	rs := runsOf(t.Tab)
	if len(rs) <= 10 {
		ok := true
		for _, x := range rs {
			if x.slope == 1 && t.K == KBool {
				ok = false
			}
		}
		if ok {
			var sb strings.Builder
			for i, x := range rs {
				var v string
				if x.slope == 0 {
					v = lit(x.base)
				} else {
					rr := r
					if t.W > root.W {
						rr = fmt.Sprintf("((_ zero_extend %d) %s)", t.W-root.W, r)
					} else if t.W < root.W {
						rr = fmt.Sprintf("((_ extract %d 0) %s)", t.W-1, r)
					}
					v = fmt.Sprintf("(bvadd %s %s)", rr, bvLit((x.base-uint64(x.lo))&mask(t.W), t.W))
				}
				if i+1 < len(rs) {
					fmt.Fprintf(&sb, "(ite (bvult %s %s) %s ", r, bvLit(uint64(x.hi+1), root.W), v)
				} else {
					sb.WriteString(v)
				}
			}
			sb.WriteString(strings.Repeat(")", len(rs)-1))
			return sb.String()
		}
	}
	return p.mux(r, root.W, t.Tab, t.K, t.W, root.ID)
}

func (p *Printer) mux(r string, w int, tab []uint64, k Kind, tw int, rid int32) string {
	same := true
	for _, x := range tab {
		if x != tab[0] {
			same = false
			break
		}
	}
	if same {
		if k == KBool {
			if tab[0] != 0 {
				return "true"
			}
			return "false"
		}
		return bvLit(tab[0], tw)
	}
	key := fmt.Sprintf("%d/%d/%d/%v", rid, k, tw, tab)
	if s, ok := p.muxes[key]; ok {
		return s
	}
	h := len(tab) / 2
	lo := p.mux(r, w-1, tab[:h], k, tw, rid)
	hi := p.mux(r, w-1, tab[h:], k, tw, rid)
	p.nmux++
	n := fmt.Sprintf("$m%d", p.nmux)
	srt := "Bool"
	if k == KBV {
		srt = fmt.Sprintf("(_ BitVec %d)", tw)
	}
	fmt.Fprintf(p.sb, "(define-fun %s () %s (ite (= ((_ extract %d %d) %s) #b1) %s %s))\n", n, srt, w-1, w-1, r, hi, lo)
	p.muxes[key] = n
	return n
}

// HasInt reports whether the integer sort occurs in t.
func (c *Ctx) HasInt(ts ...*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.K == KInt {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.A {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if rec(t) {
			return true
		}
	}
	return false
}

// ---- concrete evaluation ----

// Model assigns variables; missing variables default to zero.
type Model map[*Term]*big.Int

type Evaluator struct {
	c    *Ctx
	m    Model
	memo map[*Term]*big.Int
}

func NewEvaluator(c *Ctx, m Model) *Evaluator {
	return &Evaluator{c: c, m: m, memo: map[*Term]*big.Int{}}
}

var bigZero = new(big.Int)

func (e *Evaluator) Eval(t *Term) *big.Int {
	if t.Op == OConst {
		if t.K == KInt {
			return t.B
		}
		return new(big.Int).SetUint64(t.C)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var v *big.Int
	switch t.Op {
	case OVar:
		if x, ok := e.m[t]; ok {
			v = x
		} else if t.K == KInt && t.ilo != nil && t.ilo.Sign() > 0 {
			v = t.ilo
		} else {
			v = bigZero
		}
	case OIte:
		if e.Eval(t.A[0]).Sign() != 0 {
			v = e.Eval(t.A[1])
		} else {
			v = e.Eval(t.A[2])
		}
	case OAnd:
		v = bigOne
		for _, a := range t.A {
			if e.Eval(a).Sign() == 0 {
				v = bigZero
				break
			}
		}
	case OEq:
		v = new(big.Int).SetUint64(b2u(e.Eval(t.A[0]).Cmp(e.Eval(t.A[1])) == 0))
	case OIAdd:
		s := new(big.Int)
		for _, a := range t.A {
			s.Add(s, e.Eval(a))
		}
		v = s
	case OIMul:
		v = new(big.Int).Mul(e.Eval(t.A[0]), e.Eval(t.A[1]))
	case OIQuo, OIRem:
		a, b := e.Eval(t.A[0]), e.Eval(t.A[1])
		if b.Sign() == 0 {
			v = bigZero
		} else if t.Op == OIQuo {
			v = new(big.Int).Quo(a, b)
		} else {
			v = new(big.Int).Rem(a, b)
		}
	case OILt:
		v = new(big.Int).SetUint64(b2u(e.Eval(t.A[0]).Cmp(e.Eval(t.A[1])) < 0))
	case OIFromU:
		v = e.Eval(t.A[0])
	case OIFromS:
		v = big.NewInt(sx(e.Eval(t.A[0]).Uint64(), t.A[0].W))
	case OIToBV:
		v = new(big.Int).And(e.Eval(t.A[0]), new(big.Int).SetUint64(mask(t.W)))
	default:
		vals := make([]uint64, len(t.A))
		for i, a := range t.A {
			vals[i] = e.Eval(a).Uint64()
		}
		v = new(big.Int).SetUint64(evalOp(t, vals))
	}
	e.memo[t] = v
	return v
}

func (e *Evaluator) True(t *Term) bool { return e.Eval(t).Sign() != 0 }
