package exec

import "verif/engine/sym"

// Applications of modelled functions (hashes, curve operations, integer to
// byte conversions) stand for fresh variables tied together by axioms. An
// axiom matters to a path only if every application it speaks of is reachable
// from the path's own variables: values for the other applications can always
// be added to a model of the rest. Leaving such axioms out keeps the queries of
// one path free of what other paths have computed.

type instance struct {
	own  *sym.VarSet
	deps *sym.VarSet
}

// instance registers variables own, determined by the values of deps.
func (x *Exec) instance(own, deps []*sym.Term) {
	in := instance{&sym.VarSet{}, &sym.VarSet{}}
	for _, t := range own {
		in.own.Or(x.c.VarsOf(t))
	}
	for _, t := range deps {
		in.deps.Or(x.c.VarsOf(t))
	}
	// variables that were there before are dependencies, not our own
	in.own.AndNot(x.ownedV())
	in.own.AndNot(in.deps)
	x.ownedV().Or(in.own)
	x.insts = append(x.insts, in)
	x.axInst = nil
}

func (x *Exec) ownedV() *sym.VarSet {
	if x.owned == nil {
		x.owned = &sym.VarSet{}
	}
	return x.owned
}

// relevant reports which axioms matter to formulas over the variables in vs.
func (x *Exec) relevant(vs *sym.VarSet) []bool {
	r := vs.Clone()
	done := make([]bool, len(x.insts))
	for ch := true; ch; {
		ch = false
		for i, in := range x.insts {
			if !done[i] && in.own.Intersects(r) {
				done[i], ch = true, true
				r.Or(in.deps)
				r.Or(in.own)
			}
		}
	}
	for len(x.axInst) < len(x.axioms) {
		v := x.c.VarsOf(x.axioms[len(x.axInst)])
		var l []int
		for i, in := range x.insts {
			if in.own.Intersects(v) {
				l = append(l, i)
			}
		}
		x.axInst = append(x.axInst, l)
	}
	o := make([]bool, len(x.axioms))
	for k, l := range x.axInst[:len(x.axioms)] {
		o[k] = true
		for _, i := range l {
			if !done[i] {
				o[k] = false
				break
			}
		}
	}
	return o
}

// relevantTo gives the axioms that matter to conj.
func (x *Exec) relevantTo(conj []*sym.Term) []*sym.Term {
	if len(x.axioms) == 0 {
		return nil
	}
	vs := &sym.VarSet{}
	for _, t := range conj {
		vs.Or(x.c.VarsOf(t))
	}
	var o []*sym.Term
	for k, ok := range x.relevant(vs) {
		if ok {
			o = append(o, x.axioms[k])
		}
	}
	return o
}
