package exec

import (
	"go/types"

	"verif/engine/sym"
)

// canMerge tells whether mergeVal would succeed, without building terms.
func (x *Exec) canMerge(a, b Value) bool {
	if eqShallow(a, b) {
		return true
	}
	list := func(p, q []Value) bool {
		if len(p) != len(q) {
			return false
		}
		for i := range p {
			if !x.canMerge(p[i], q[i]) {
				return false
			}
		}
		return true
	}
	switch a := a.(type) {
	case *sym.Term:
		b, ok := b.(*sym.Term)
		return ok && a.K == b.K && a.W == b.W
	case *Str:
		b, ok := b.(*Str)
		return ok && a.Len() == b.Len()
	case *StructV:
		b, ok := b.(*StructV)
		return ok && list(a.F, b.F)
	case *ArrayV:
		b, ok := b.(*ArrayV)
		return ok && list(a.E, b.E)
	case *Tuple:
		b, ok := b.(*Tuple)
		return ok && list(a.V, b.V)
	case Iface:
		b, ok := b.(Iface)
		return ok && a.T != nil && b.T != nil && types.Identical(a.T, b.T) && x.canMerge(a.V, b.V)
	case *ErrV:
		_, ok := b.(*ErrV)
		return ok
	case Ptr:
		b, ok := b.(Ptr)
		if ok && a.Obj == b.Obj && a.Obj != 0 {
			_, ap, _, _, ok1 := x.ptrElem(a)
			_, bp, _, _, ok2 := x.ptrElem(b)
			return ok1 && ok2 && ap == bp && (a.Idx != nil || b.Idx != nil)
		}
		return false
	case *FuncV:
		b, ok := b.(*FuncV)
		return ok && a != nil && b != nil && a.Fn == b.Fn && a.Bi == b.Bi && list(a.Bind, b.Bind)
	case *MapV:
		b, ok := b.(*MapV)
		return ok && list(a.K, b.K) && list(a.V, b.V)
	}
	return false
}

// mergeable is a cheap test that refuses most pairs tryMerge would refuse.
func (x *Exec) mergeable(a, b *State) bool {
	for i := len(a.frames) - 1; i >= 0; i-- {
		fa, fb := a.frames[i], b.frames[i]
		if fa == fb {
			continue
		}
		if fa.fn != fb.fn || fa.block != fb.block || fa.pc != fb.pc || len(fa.regs) != len(fb.regs) {
			return false
		}
		for j, va := range fa.regs {
			if vb := fb.regs[j]; va != nil && vb != nil && !x.canMerge(va, vb) {
				return false
			}
		}
	}
	// look for objects that differ irreconcilably and are still in use
	seen := map[ObjID]bool{}
	ok := true
	var visit func(v Value)
	visitObj := func(id ObjID) {
		if id == 0 || seen[id] || !ok {
			return
		}
		seen[id] = true
		oa := a.heap[id]
		if oa == nil {
			return // as initialised: points only to such objects, or checked below
		}
		if ob := b.heap[id]; ob != nil && oa != ob && !x.canMerge(oa.V, ob.V) {
			ok = false
			return
		}
		visit(oa.V)
	}
	visit = func(v Value) {
		if !ok {
			return
		}
		switch v := v.(type) {
		case Ptr:
			visitObj(v.Obj)
		case SliceV:
			visitObj(v.Obj)
		case MapRef:
			visitObj(v.Obj)
		case *StructV:
			for _, f := range v.F {
				visit(f)
			}
		case *ArrayV:
			for _, f := range v.E {
				if _, t := f.(*sym.Term); t {
					break
				}
				visit(f)
			}
		case *Tuple:
			for _, f := range v.V {
				visit(f)
			}
		case Iface:
			visit(v.V)
		case *FuncV:
			if v != nil {
				for _, f := range v.Bind {
					visit(f)
				}
			}
		case *MapV:
			for i := range v.K {
				visit(v.K[i])
				visit(v.V[i])
			}
		case *IterV:
			visitObj(v.Obj)
		}
	}
	for i := len(a.frames) - 1; i >= 0 && ok; i-- {
		fa, fb := a.frames[i], b.frames[i]
		for j, v := range fa.regs {
			// registers dead in either are dead in the merged state
			if v != nil && fb.regs[j] != nil {
				visit(v)
			}
		}
		for _, d := range fa.defers {
			visit(d.fn)
			for _, v := range d.args {
				visit(v)
			}
		}
	}
	for id := range a.heap {
		if _, global := x.base[id]; global {
			visitObj(id)
		}
	}
	return ok
}
