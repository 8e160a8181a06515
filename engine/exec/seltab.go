package exec

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

// StrSel is a string selected by Idx (64 bits, below len(Tab)) from a table of constants.
type StrSel struct {
	Tab []string
	Idx *sym.Term
}

const (
	selMin = 16
	selMax = 4096
)

// strSel makes a StrSel of es[idx], idx in [lo,hi), if all the candidates are constant strings.
func (x *Exec) strSel(es []Value, lo, hi int, idx *sym.Term) Value {
	if hi-lo < selMin || hi > selMax {
		return nil
	}
	key := selKey{&es[0], lo, hi}
	if tab, ok := x.selTabs[key]; ok {
		return &StrSel{tab, idx}
	}
	tab := make([]string, hi)
	for i := lo; i < hi; i++ {
		v, ok := es[i].(*Str)
		if !ok || v.B != nil {
			return nil
		}
		tab[i] = v.S
	}
	for i := 0; i < lo; i++ {
		tab[i] = tab[lo]
	}
	if x.selTabs == nil {
		x.selTabs = map[selKey][]string{}
	}
	x.selTabs[key] = tab
	x.hasSel = true
	return &StrSel{tab, idx}
}

type selKey struct {
	first  *Value
	lo, hi int
}

func isConstVal(v Value) bool {
	switch v := v.(type) {
	case *sym.Term:
		return v.IsConst()
	case *Str:
		return v.B == nil
	case Iface:
		return v.T == nil || isConstVal(v.V)
	case Ptr:
		return v.Obj == 0
	case *StructV:
		for _, f := range v.F {
			if !isConstVal(f) {
				return false
			}
		}
		return true
	case *FuncV:
		return v == nil || len(v.Bind) == 0
	}
	return false
}

// tabulate runs f for every option of sel and combines the results, which must
// be constants; ok is false if they are not.
func (x *Exec) tabulate(sel *StrSel, f func(v Value) (Value, bool)) (Value, bool) {
	rs := make([]Value, len(sel.Tab))
	seen := map[string]Value{}
	for k, o := range sel.Tab {
		if r, ok := seen[o]; ok {
			rs[k] = r
			continue
		}
		r, ok := f(concStr(o))
		if !ok {
			return nil, false
		}
		rs[k] = r
		seen[o] = r
	}
	return x.combine(rs, sel.Idx)
}

func (x *Exec) combine(rs []Value, idx *sym.Term) (Value, bool) {
	switch r0 := rs[0].(type) {
	case *sym.Term:
		tab := make([]uint64, len(rs))
		same := true
		for i, r := range rs {
			t, ok := r.(*sym.Term)
			if !ok || !t.IsConst() || t.K != r0.K || t.W != r0.W {
				return nil, false
			}
			switch {
			case t.K == sym.KBool && t.IsTrue():
				tab[i] = 1
			case t.K == sym.KBool:
			case t.K == sym.KBV && t.W <= 64:
				tab[i] = t.C
			default:
				return nil, false
			}
			same = same && t == r0
		}
		if same {
			return r0, true
		}
		if r0.K == sym.KBool {
			return x.c.Eq(x.c.SelectConst(tab, idx, 1), x.c.BV(1, 1)), true
		}
		return x.c.SelectConst(tab, idx, r0.W), true
	case *Str:
		tab := make([]string, len(rs))
		for i, r := range rs {
			t, ok := r.(*Str)
			if !ok || t.B != nil {
				return nil, false
			}
			tab[i] = t.S
		}
		return &StrSel{tab, idx}, true
	case *Tuple:
		out := &Tuple{}
		for j := range r0.V {
			col := make([]Value, len(rs))
			for i, r := range rs {
				t, ok := r.(*Tuple)
				if !ok || len(t.V) != len(r0.V) {
					return nil, false
				}
				col[i] = t.V[j]
			}
			v, ok := x.combine(col, idx)
			if !ok {
				return nil, false
			}
			out.V = append(out.V, v)
		}
		return out, true
	default:
		for _, r := range rs {
			if !isConstVal(r) || !eqShallow(r, r0) {
				return nil, false
			}
		}
		return r0, isConstVal(r0)
	}
}

type tabKey struct {
	fn  *ssa.Function
	arg int
	tab *string
	n   int
	sig string
}

// tabCall evaluates a call whose only symbolic argument is a StrSel by running
// the callee concretely for every option.
func (x *Exec) tabCall(s *State, fn *ssa.Function, args []Value) (Value, bool) {
	at := -1
	sig := ""
	for i, a := range args {
		if sel, ok := a.(*StrSel); ok {
			if at >= 0 && args[at].(*StrSel) != sel {
				return nil, false
			}
			at = i
			continue
		}
		if !isConstVal(a) {
			return nil, false
		}
		sig += showVal(a) + "|"
	}
	if at < 0 {
		return nil, false
	}
	// globals must be as initialised
	for id := range s.heap {
		if _, ok := x.base[id]; ok {
			return nil, false
		}
	}
	sel := args[at].(*StrSel)
	key := tabKey{fn, at, &sel.Tab[0], len(sel.Tab), sig}
	if rs, ok := x.tabCache[key]; ok {
		if rs == nil {
			return nil, false
		}
		return x.combine(rs, sel.Idx)
	}
	rs := make([]Value, len(sel.Tab))
	ok := true
	for k, o := range sel.Tab {
		as := append([]Value(nil), args...)
		for i := range as {
			if _, is := as[i].(*StrSel); is {
				as[i] = concStr(o)
			}
		}
		var r Value
		if r, ok = x.concreteCall(fn, as); !ok {
			break
		}
		rs[k] = r
	}
	if x.tabCache == nil {
		x.tabCache = map[tabKey][]Value{}
	}
	if !ok {
		x.tabCache[key] = nil
		return nil, false
	}
	x.tabCache[key] = rs
	x.note("calls of " + fn.String() + " on a word chosen by a symbolic index: evaluated for every entry of the list")
	return x.combine(rs, sel.Idx)
}

// concreteCall runs fn on constant arguments to its end on a fresh heap; ok is
// false if the run is not concrete, panics, or changes package state.
func (x *Exec) concreteCall(fn *ssa.Function, args []Value) (res Value, ok bool) {
	swl, sit, sp := x.wl, x.items, x.pending
	ends := x.endCount
	x.wl, x.items, x.pending = nil, map[string]*wlItem{}, nil
	s := &State{id: x.newSID(), heap: map[ObjID]*Obj{}, known: map[int32]bool{}, names: map[string]int{}, model: sym.Model{}, dom: map[int32]*domain{}, multi: &sym.VarSet{}}
	defer func() {
		x.wl, x.items, x.pending = swl, sit, sp
		if r := recover(); r != nil {
			res, ok = nil, false
		}
		if x.endCount != ends {
			res, ok = nil, false
		}
	}()
	if it := x.lookupIntrinsic(fn); it != nil {
		r := it(x, s, &callCtx{fn: fn}, args)
		if _, p := r.(pushed); p {
			return nil, false
		}
		return r, true
	}
	x.pushFrame(s, fn, args, nil, retTab, []int32{-500}, nil)
	x.tabDepth++
	defer func() { x.tabDepth-- }()
	x.tabRes = nil
	n := 0
	for len(s.frames) > 0 {
		s.ctr = 0
		f := s.top()
		x.step(s, f, f.block.Instrs[f.pc])
		x.steps++
		if n++; n > 200000 {
			return nil, false
		}
	}
	for id := range s.heap {
		if _, over := x.base[id]; over {
			return nil, false
		}
	}
	return x.tabRes, x.tabRes != nil
}

// selStep resolves StrSel operands of instructions that look into strings.
// It returns true if it performed the instruction.
func (x *Exec) selStep(s *State, f *Frame, ins ssa.Instruction) bool {
	switch i := ins.(type) {
	case *ssa.Store, *ssa.Return, *ssa.Extract, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Jump, *ssa.UnOp, *ssa.Alloc, *ssa.MakeClosure:
		return false
	case *ssa.Call:
		if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
			return false // see call
		}
		if b := i.Call.Value.(*ssa.Builtin); b.Name() == "append" {
			if _, isStr := i.Call.Args[len(i.Call.Args)-1].Type().Underlying().(*types.Basic); !isStr {
				return false
			}
		}
	case *ssa.BinOp:
		a, b := f.reg(i.X), f.reg(i.Y)
		sa, oka := a.(*StrSel)
		sb, okb := b.(*StrSel)
		if oka && okb {
			if (i.Op == token.EQL || i.Op == token.NEQ) && x.sameDistinct(sa.Tab, sb.Tab) {
				r := x.c.Eq(sa.Idx, sb.Idx)
				if i.Op == token.NEQ {
					r = x.c.Not(r)
				}
				g := s.wtop()
				g.regs[g.info.reg[i]] = r
				g.pc++
				return true
			}
			break
		}
		if !oka && !okb {
			break
		}
		if oka {
			b = x.val(s, f, i.Y)
		} else {
			a = x.val(s, f, i.X)
			sa = sb
		}
		if i.Op == token.ADD {
			break
		}
		r, ok := x.tabulate(sa, func(o Value) (Value, bool) {
			p, q := a, b
			if oka {
				p = o
			} else {
				q = o
			}
			if !isConstVal(p) || !isConstVal(q) {
				return nil, false
			}
			return x.binop(s, i.Op, i.X.Type(), i.Y.Type(), p, q), true
		})
		if ok {
			g := s.wtop()
			g.regs[g.info.reg[i]] = r
			g.pc++
			return true
		}
	}
	var buf [8]*ssa.Value
	for _, o := range ins.Operands(buf[:0]) {
		if *o == nil {
			continue
		}
		if r, ok := f.info.reg[*o]; ok {
			if sel, ok := f.regs[r].(*StrSel); ok {
				k := x.concretize(s, sel.Idx)
				s.wtop().regs[r] = concStr(sel.Tab[k])
			}
		}
	}
	return false
}

func (f *Frame) reg(v ssa.Value) Value {
	if r, ok := f.info.reg[v]; ok {
		return f.regs[r]
	}
	return nil
}

// sameDistinct: the tables are equal and have no repeated entry.
func (x *Exec) sameDistinct(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	key := [2]*string{&a[0], &b[0]}
	if r, ok := x.selSame[key]; ok {
		return r
	}
	seen := map[string]bool{}
	r := true
	for i := range a {
		r = r && a[i] == b[i] && !seen[a[i]]
		seen[a[i]] = true
	}
	if x.selSame == nil {
		x.selSame = map[[2]*string]bool{}
	}
	x.selSame[key] = r
	return r
}
