package exec

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"time"

	"verif/engine/sym"
)

// Discharge decides an obligation; the execution must be finished.
func (x *Exec) Discharge(o *Obligation, to time.Duration) {
	if o.Model != nil {
		o.Result, o.Solver = sym.Sat, "path model"
		return
	}
	x.c.Mu.Lock()
	all := append(append([]*sym.Term(nil), o.Conj...), x.relevantTo(o.Conj)...)
	slice := all
	if o.Extra != nil {
		vs := x.c.VarsOf(o.Extra).Clone()
		in := make([]bool, len(all))
		for ch := true; ch; {
			ch = false
			for i, t := range all {
				if !in[i] && (t == o.Extra || x.c.VarsOf(t).Intersects(vs)) {
					in[i], ch = true, true
					vs.Or(x.c.VarsOf(t))
				}
			}
		}
		slice = nil
		for i, t := range all {
			if in[i] {
				slice = append(slice, t)
			}
		}
	}
	x.c.Mu.Unlock()
	r, m, by := x.c.Solve(slice, to)
	if r == sym.Sat && len(slice) < len(all) {
		full := sym.Model{}
		for k, v := range o.Base {
			full[k] = v
		}
		for k, v := range m {
			full[k] = v
		}
		if x.holds(full, all) {
			m = full
		} else {
			r, m, by = x.c.Solve(all, to)
		}
	}
	o.Result, o.Solver = r, by
	if r == sym.Sat {
		o.Model = m
	}
}

func (x *Exec) holds(m sym.Model, all []*sym.Term) bool {
	x.c.Mu.Lock()
	defer x.c.Mu.Unlock()
	ev := sym.NewEvaluator(x.c, m)
	for _, t := range all {
		if !ev.True(t) {
			return false
		}
	}
	return true
}

// EndModel finds concrete inputs reaching an end state.
func (x *Exec) EndModel(e *EndState, to time.Duration) sym.Model {
	x.c.Mu.Lock()
	all := append(append([]*sym.Term(nil), e.Conj...), x.relevantTo(e.Conj)...)
	x.c.Mu.Unlock()
	if e.Model != nil && x.holds(e.Model, all) {
		return e.Model
	}
	_, m, _ := x.c.Solve(all, to)
	return m
}

// InputsOf renders the harness inputs of a model for the native replay.
func (x *Exec) InputsOf(m sym.Model) map[string]string {
	o := map[string]string{}
	for n, t := range x.Inputs {
		v := m[t]
		if v == nil {
			v = new(big.Int)
		}
		o[n] = v.String()
	}
	if cs := x.ufs["hmac-sha512"]; len(cs) > 0 {
		x.c.Mu.Lock()
		ev := sym.NewEvaluator(x.c, m)
		val := func(ts []*sym.Term) string {
			var sb strings.Builder
			for _, t := range ts {
				fmt.Fprintf(&sb, "%02x", byte(ev.Eval(t).Uint64()))
			}
			return sb.String()
		}
		// calls the model speaks of come first; the value of any other call is free
		seen := map[string]bool{}
		for _, own := range []bool{true, false} {
			for i, k := range cs {
				if _, c := concOf(k.out); c {
					continue
				}
				has := false
				for _, v := range k.out {
					for _, a := range v.A {
						if _, ok := m[a]; ok {
							has = true
						}
					}
				}
				in := val(k.in)
				if has == own && !seen[in] {
					seen[in] = true
					o[fmt.Sprintf("!hmac.%d", i)] = in + ":" + val(k.out)
				}
			}
		}
		x.c.Mu.Unlock()
	}
	if x.ecs != nil {
		x.c.Mu.Lock()
		defer x.c.Mu.Unlock()
		ev := sym.NewEvaluator(x.c, m)
		for i, v := range x.ecs.vers {
			if _, own := m[v.out]; !own || v.name != "ed25519.verify" {
				continue
			}
			var sb strings.Builder
			for _, t := range v.in {
				fmt.Fprintf(&sb, "%02x", byte(ev.Eval(t).Uint64()))
			}
			r := ":0"
			if ev.True(v.out) {
				r = ":1"
			}
			o[fmt.Sprintf("!edverify.%d", i)] = sb.String() + r
		}
	}
	return o
}

// ObsOf evaluates observations under a model, in the native format.
func (x *Exec) ObsOf(m sym.Model, obs []obsRec) []string {
	x.c.Mu.Lock()
	defer x.c.Mu.Unlock()
	ev := sym.NewEvaluator(x.c, m)
	var out []string
	for _, o := range obs {
		s := "?"
		switch v := o.v.(type) {
		case *Str:
			if v.B == nil {
				s = fmt.Sprintf("%x", v.S)
			} else {
				b := make([]byte, len(v.B))
				for i, t := range v.B {
					b[i] = byte(ev.Eval(t).Uint64())
				}
				s = fmt.Sprintf("%x", b)
			}
		case *sym.Term:
			n := ev.Eval(v)
			switch {
			case v.K == sym.KBool:
				s = fmt.Sprint(n.Sign() != 0)
			default:
				if b, ok := o.t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
					n = new(big.Int).Set(n)
					if n.Bit(v.W-1) == 1 {
						n.Sub(n, new(big.Int).Lsh(big.NewInt(1), uint(v.W)))
					}
				}
				s = n.String()
			}
		case float64:
			s = fmt.Sprint(v)
		}
		out = append(out, o.label+"="+s)
	}
	return out
}
