package exec

import (
	"math/big"
	"sort"
	"strings"
	"time"

	"verif/engine/sym"
)

// Realise looks for a counterexample of o in which the hashes and curve points
// have the values the real functions give them, so that a native run takes the
// same path. Hash outputs are unconstrained for the solver; here the ones the
// model uses are replaced, one after the other and in the order of their
// calls, by the real output for the input the model chose. It returns nil when
// no such model turns up.
func (x *Exec) Realise(o *Obligation, budget time.Duration) sym.Model {
	end := time.Now().Add(budget)
	x.c.Mu.Lock()
	speak := append([]*sym.Term(nil), o.Conj...)
	ax := x.relevantTo(speak)
	if x.ecs != nil { // the bytes of parsed points matter here
		for n := 0; n < 2; n++ {
			vs := &sym.VarSet{}
			for _, t := range append(append([]*sym.Term(nil), speak...), ax...) {
				vs.Or(x.c.VarsOf(t))
			}
			for _, q := range x.ecs.parses {
				if x.c.VarsOf(q.ok).Intersects(vs) {
					speak = append(append(speak, q.p.b...), q.p.y)
				}
			}
			ax = x.relevantTo(speak)
		}
	}
	all := append(append([]*sym.Term(nil), o.Conj...), ax...)
	vs := &sym.VarSet{}
	for _, t := range all {
		vs.Or(x.c.VarsOf(t))
	}
	for ch := true; ch; { // and what the inputs of those calls depend on
		ch = false
		for _, in := range x.insts {
			if in.own.Intersects(vs) && !in.deps.Subset(vs) {
				vs.Or(in.deps)
				ch = true
			}
		}
	}
	x.c.Mu.Unlock()
	for _, pin := range []bool{true, false} {
		m := o.Model
		fix := append([]*sym.Term(nil), all...)
		for round := 0; round < 40; round++ {
			x.c.Mu.Lock()
			more, clash := x.unreal(m, vs, pin)
			x.c.Mu.Unlock()
			if len(more) == 0 {
				if clash {
					break
				}
				return m
			}
			fix = append(fix, more...)
			left := time.Until(end)
			if left < time.Second {
				return nil
			}
			if left > 30*time.Second {
				left = 30 * time.Second
			}
			r, m2, _ := x.c.Solve(fix, left)
			if r != sym.Sat {
				break
			}
			m = m2
		}
	}
	return nil
}

// unreal finds the first call whose value under m is not the real one and says
// what would make it so; clash: nothing could.
func (x *Exec) unreal(m sym.Model, vs *sym.VarSet, pin bool) (fix []*sym.Term, clash bool) {
	c := x.c
	ev := sym.NewEvaluator(c, m)
	inModel := func(ts []*sym.Term) bool {
		for _, t := range ts {
			if c.VarsOf(t).Intersects(vs) {
				return true
			}
		}
		return false
	}
	bytesOf := func(ts []*sym.Term) []byte {
		b := make([]byte, len(ts))
		for i, t := range ts {
			b[i] = byte(ev.Eval(t).Uint64())
		}
		return b
	}
	type ev1 struct {
		seq int
		f   func() []*sym.Term
	}
	var evs []ev1
	eqB := func(ts []*sym.Term, b []byte) *sym.Term {
		var es []*sym.Term
		for i, t := range ts {
			es = append(es, c.Eq(t, c.BV(8, uint64(b[i]))))
		}
		return c.AndN(es...)
	}
	imp := func(a, b *sym.Term) []*sym.Term {
		if pin {
			return []*sym.Term{a, b}
		}
		return []*sym.Term{c.Implies(a, b)}
	}
	for name, cs := range x.ufs {
		if strings.HasPrefix(name, "hmac") || strings.HasPrefix(name, "ed25519") { // injected
			continue
		}
		name := name
		for _, k := range cs {
			k := k
			if _, conc := concOf(k.out); conc || !inModel(k.out) {
				continue
			}
			evs = append(evs, ev1{int(k.out[0].ID), func() []*sym.Term {
				in, out := bytesOf(k.in), bytesOf(k.out)
				h := nativeHash(name, in)
				if h == nil || string(h) == string(out) {
					return nil
				}
				return imp(eqB(k.in, in), eqB(k.out, h))
			}})
		}
	}
	if x.ecs != nil {
		for _, p := range x.ecs.pts {
			p := p
			if p.e.IsConst() || !(inModel(p.b) || inModel([]*sym.Term{p.y})) {
				continue
			}
			evs = append(evs, ev1{int(p.y.ID), func() []*sym.Term {
				e := ev.Eval(p.e)
				px, py := ecBase(e)
				rb := append([]byte{byte(2 + py.Bit(0))}, px.FillBytes(make([]byte, 32))...)
				if string(rb) == string(bytesOf(p.b)) && (ev.Eval(p.y).Cmp(py) == 0) {
					return nil
				}
				return imp(c.Eq(p.e, c.Int(e)), c.And(eqB(p.b, rb), c.Eq(p.y, c.Int(py))))
			}})
		}
		for _, q := range x.ecs.parses {
			q := q
			if !inModel([]*sym.Term{q.ok}) {
				continue
			}
			evs = append(evs, ev1{int(q.ok.ID), func() []*sym.Term {
				in := bytesOf(q.in)
				if ev.True(q.ok) || !validPoint(in) {
					return nil // a parsed point is made real as a point
				}
				return []*sym.Term{c.Not(eqB(q.in, in))}
			}})
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].seq < evs[j].seq })
	for _, e := range evs {
		if f := e.f(); f != nil {
			for _, t := range f {
				if t.IsFalse() {
					return nil, true
				}
			}
			return f, false
		}
	}
	return nil, false
}

// validPoint: in is the compressed form of a point of secp256k1.
func validPoint(in []byte) bool {
	if len(in) != 33 || in[0] != 2 && in[0] != 3 {
		return false
	}
	v := new(big.Int).SetBytes(in[1:])
	if v.Cmp(curveP) >= 0 {
		return false
	}
	r := new(big.Int).Exp(v, big.NewInt(3), curveP)
	r.Add(r, big.NewInt(7)).Mod(r, curveP)
	return big.Jacobi(r, curveP) >= 0
}
