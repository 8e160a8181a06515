package exec

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

func (x *Exec) rtPanic(msg string) {
	panic(goPanic{&ErrV{"runtime error: " + msg}})
}

// step executes one instruction; it returns true when control moved (yield point).
func (x *Exec) step(s *State, f *Frame, ins ssa.Instruction) bool {
	set := func(v ssa.Value, r Value) {
		f := s.wtop()
		f.regs[f.info.reg[v]] = r
		f.pc++
	}
	if x.hasSel && x.selStep(s, f, ins) {
		return false
	}
	f = s.top()
	switch i := ins.(type) {
	case *ssa.DebugRef:
		s.wtop().pc++
	case *ssa.Alloc:
		id := x.newObj(s, x.zero(i.Type().Underlying().(*types.Pointer).Elem()), 0)
		set(i, Ptr{Obj: id})
	case *ssa.UnOp:
		set(i, x.unop(s, f, i))
	case *ssa.BinOp:
		set(i, x.binop(s, i.Op, i.X.Type(), i.Y.Type(), x.val(s, f, i.X), x.val(s, f, i.Y)))
	case *ssa.Phi:
		panic(unsup{"stray phi"})
	case *ssa.Call:
		return x.call(s, f, &i.Call, i)
	case *ssa.Defer:
		fv, args := x.callee(s, f, &i.Call)
		g := s.wtop()
		g.defers = append(g.defers, deferred{fn: fv, args: args, key: x.intern(x.fullKey(s))})
		g.pc++
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			s.wtop().pc++
			break
		}
		d := f.defers[len(f.defers)-1]
		fv := d.fn.(*FuncV)
		if fv == nil {
			x.rtPanic("nil deferred func")
		}
		if fv.Bi != nil {
			g := s.wtop()
			g.defers = g.defers[:len(g.defers)-1]
			break
		}
		if it := x.lookupIntrinsic(fv.Fn); it != nil {
			it(x, s, &callCtx{fn: fv.Fn}, d.args)
			g := s.wtop()
			g.defers = g.defers[:len(g.defers)-1]
			break
		}
		pre := append(x.fullKey(s), int32(len(f.defers)))
		g := s.wtop()
		g.defers = g.defers[:len(g.defers)-1]
		x.pushFrame(s, fv.Fn, d.args, fv.Bind, retDefer, pre, nil)
		return true
	case *ssa.ChangeInterface:
		set(i, x.val(s, f, i.X))
	case *ssa.ChangeType:
		set(i, x.val(s, f, i.X))
	case *ssa.Convert:
		set(i, x.convert(s, x.val(s, f, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		set(i, x.convert(s, x.val(s, f, i.X), i.X.Type(), i.Type()))
	case *ssa.MakeInterface:
		set(i, Iface{i.X.Type(), x.val(s, f, i.X)})
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range i.Bindings {
			b = append(b, x.val(s, f, v))
		}
		set(i, &FuncV{Fn: i.Fn.(*ssa.Function), Bind: b})
	case *ssa.MakeSlice:
		n := x.intArg(s, x.term(s, f, i.Len), i.Len.Type(), "makeslice: len out of range")
		c := x.intArg(s, x.term(s, f, i.Cap), i.Cap.Type(), "makeslice: cap out of range")
		if c < n {
			x.rtPanic("makeslice: cap out of range")
		}
		if c > 1<<22 {
			panic(unsup{"huge slice"})
		}
		set(i, x.makeSlice(s, i.Type().Underlying().(*types.Slice).Elem(), n, c))
	case *ssa.MakeMap:
		id := x.newObj(s, &MapV{}, 0)
		set(i, MapRef{id})
	case *ssa.MapUpdate:
		x.mapUpdate(s, x.val(s, f, i.Map).(MapRef), x.val(s, f, i.Key), x.val(s, f, i.Value))
		s.wtop().pc++
	case *ssa.Lookup:
		set(i, x.lookup(s, f, i))
	case *ssa.Extract:
		tv := x.val(s, f, i.Tuple).(*Tuple)
		set(i, tv.V[i.Index])
	case *ssa.Field:
		set(i, x.val(s, f, i.X).(*StructV).F[i.Field])
	case *ssa.FieldAddr:
		p := x.ptr(s, x.val(s, f, i.X))
		set(i, Ptr{Obj: p.Obj, P: x.path(p.P, int32(i.Field))})
	case *ssa.Index:
		set(i, x.index(s, x.val(s, f, i.X), x.sidx(x.term(s, f, i.Index), i.Index.Type())))
	case *ssa.IndexAddr:
		set(i, x.indexAddr(s, x.val(s, f, i.X), i.X.Type(), x.sidx(x.term(s, f, i.Index), i.Index.Type())))
	case *ssa.Store:
		p := x.ptrOf(s, x.val(s, f, i.Addr))
		v := x.val(s, f, i.Val)
		x.store(s, p, v)
		s.wtop().pc++
	case *ssa.Slice:
		set(i, x.slice(s, f, i))
	case *ssa.SliceToArrayPointer:
		sv := x.val(s, f, i.X).(SliceV)
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(sv.Len) < n {
			x.rtPanic("slice to array pointer: length")
		}
		if av, ok := x.loadAt(s, sv.Obj, sv.P).(*ArrayV); ok && sv.Off == 0 && int64(len(av.E)) == n {
			set(i, Ptr{Obj: sv.Obj, P: sv.P})
			break
		}
		panic(unsup{"slice to array pointer of a subslice"})
	case *ssa.TypeAssert:
		set(i, x.typeAssert(s, x.val(s, f, i.X).(Iface), i))
	case *ssa.Range:
		set(i, x.rangeOver(s, x.val(s, f, i.X)))
	case *ssa.Next:
		set(i, x.next(s, f, i))
	case *ssa.If:
		c := x.term(s, f, i.Cond)
		if x.decide(s, c) {
			x.jump(s, f.block.Succs[0])
		} else {
			x.jump(s, f.block.Succs[1])
		}
		return true
	case *ssa.Jump:
		x.jump(s, f.block.Succs[0])
		return true
	case *ssa.Return:
		var v Value
		switch len(i.Results) {
		case 0:
			v = &Tuple{}
		case 1:
			v = x.val(s, f, i.Results[0])
		default:
			t := &Tuple{}
			for _, r := range i.Results {
				t.V = append(t.V, x.val(s, f, r))
			}
			v = t
		}
		return x.doReturn(s, v)
	case *ssa.Panic:
		panic(goPanic{x.val(s, f, i.X)})
	default:
		panic(unsup{fmt.Sprintf("instruction %T", ins)})
	}
	return false
}

func (x *Exec) ptr(s *State, v Value) Ptr {
	p := x.ptrOf(s, v)
	if p.Idx != nil {
		k := x.concretize(s, p.Idx)
		p = Ptr{Obj: p.Obj, P: x.path(p.P, int32(k))}
	}
	return p
}

func (x *Exec) ptrOf(s *State, v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsup{fmt.Sprintf("pointer expected, got %T", v)})
	}
	if p.Obj == 0 {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

// intArg concretizes a size argument.
func (x *Exec) intArg(s *State, t *sym.Term, ty types.Type, msg string) int {
	w, sg, _ := basicInfo(ty)
	if w < 64 {
		if sg {
			t = x.c.Sext(t, 64)
		} else {
			t = x.c.Zext(t, 64)
		}
	}
	if !t.IsConst() {
		if !x.decide(s, x.c.Ult(t, x.c.BV(64, 1<<30))) {
			x.rtPanic(msg)
		}
		return int(x.concretize(s, t))
	}
	if t.C >= 1<<40 {
		x.rtPanic(msg)
	}
	return int(t.C)
}

func (x *Exec) makeSlice(s *State, et types.Type, n, c int) SliceV {
	e := make([]Value, c)
	if c > 0 {
		z := x.zero(et)
		for i := range e {
			e[i] = z
		}
	}
	id := x.newObj(s, &ArrayV{e}, c)
	return SliceV{Obj: id, Len: n, Cap: c}
}

// sidx widens an index to 64 bits.
func (x *Exec) sidx(t *sym.Term, ty types.Type) *sym.Term {
	w, sg, _ := basicInfo(ty)
	if w == 64 {
		return t
	}
	if sg {
		return x.c.Sext(t, 64)
	}
	return x.c.Zext(t, 64)
}

func (x *Exec) boundsCheck(s *State, idx *sym.Term, n int) {
	if !x.decide(s, x.c.Ult(idx, x.c.BV(64, uint64(n)))) {
		x.rtPanic("index out of range")
	}
}

func isScalar(v Value) bool { _, ok := v.(*sym.Term); return ok }

func (x *Exec) index(s *State, v Value, idx *sym.Term) Value {
	switch v := v.(type) {
	case *ArrayV:
		x.boundsCheck(s, idx, len(v.E))
		return x.mux(s, v.E, 0, len(v.E), idx)
	case *Str:
		return x.strIndex(s, v, idx)
	}
	panic(unsup{fmt.Sprintf("index of %T", v)})
}

func (x *Exec) strIndex(s *State, v *Str, idx *sym.Term) Value {
	n := v.Len()
	x.boundsCheck(s, idx, n)
	if idx.IsConst() {
		return x.byteAt(v, int(idx.C))
	}
	es := make([]Value, n)
	for i := range es {
		es[i] = x.byteAt(v, i)
	}
	return x.mux(s, es, 0, n, idx)
}

func (x *Exec) byteAt(v *Str, i int) *sym.Term {
	if v.B != nil {
		return v.B[i]
	}
	return x.c.BV(8, uint64(v.S[i]))
}

func (x *Exec) bytes(v *Str) []*sym.Term {
	if v.B != nil {
		return v.B
	}
	o := make([]*sym.Term, len(v.S))
	for i := range o {
		o[i] = x.c.BV(8, uint64(v.S[i]))
	}
	return o
}

func (x *Exec) mkStr(b []*sym.Term) *Str {
	for _, t := range b {
		if !t.IsConst() {
			return &Str{B: b}
		}
	}
	o := make([]byte, len(b))
	for i, t := range b {
		o[i] = byte(t.C)
	}
	return &Str{S: string(o)}
}

func (x *Exec) subStr(v *Str, lo, hi int) *Str {
	if v.B == nil {
		return &Str{S: v.S[lo:hi]}
	}
	return x.mkStr(v.B[lo:hi])
}

func (x *Exec) indexAddr(s *State, v Value, ty types.Type, idx *sym.Term) Value {
	switch v := v.(type) {
	case SliceV:
		x.boundsCheck(s, idx, v.Len)
		if idx.IsConst() {
			return Ptr{Obj: v.Obj, P: x.path(v.P, int32(v.Off+int(idx.C)))}
		}
		if !x.scalarElem(ty) {
			k := int(x.concretize(s, idx))
			return Ptr{Obj: v.Obj, P: x.path(v.P, int32(v.Off+k))}
		}
		return Ptr{Obj: v.Obj, P: v.P, Idx: x.c.Add(idx, x.c.BV(64, uint64(v.Off))), Lo: int32(v.Off), Hi: int32(v.Off + v.Len)}
	case Ptr:
		if v.Obj == 0 {
			x.rtPanic("nil array pointer")
		}
		p := x.ptr(s, v)
		n := int(ty.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		x.boundsCheck(s, idx, n)
		if idx.IsConst() {
			return Ptr{Obj: p.Obj, P: x.path(p.P, int32(idx.C))}
		}
		if !x.scalarElem(ty) {
			k := int(x.concretize(s, idx))
			return Ptr{Obj: p.Obj, P: x.path(p.P, int32(k))}
		}
		return Ptr{Obj: p.Obj, P: p.P, Idx: idx, Lo: 0, Hi: int32(n)}
	}
	panic(unsup{fmt.Sprintf("indexaddr of %T", v)})
}

func (x *Exec) scalarElem(ty types.Type) bool {
	var e types.Type
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		e = u.Elem()
	case *types.Pointer:
		e = u.Elem().Underlying().(*types.Array).Elem()
	default:
		return false
	}
	b, ok := e.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0
}

func (x *Exec) slice(s *State, f *Frame, i *ssa.Slice) Value {
	v := x.val(s, f, i.X)
	lohi := func(n, c int) (int, int, int) {
		lo, hi, mx := 0, n, c
		get := func(o ssa.Value, lim int) int {
			t := x.sidx(x.term(s, f, o), o.Type())
			if !t.IsConst() {
				if !x.decide(s, x.c.Ule(t, x.c.BV(64, uint64(lim)))) {
					x.rtPanic("slice bounds out of range")
				}
				return int(x.concretize(s, t))
			}
			if t.C > uint64(lim) {
				x.rtPanic("slice bounds out of range")
			}
			return int(t.C)
		}
		if i.Max != nil {
			mx = get(i.Max, c)
		}
		if i.High != nil {
			hi = get(i.High, mx)
		}
		if i.Low != nil {
			lo = get(i.Low, mx)
		}
		if lo > hi || hi > mx {
			x.rtPanic("slice bounds out of range")
		}
		return lo, hi, mx
	}
	switch v := v.(type) {
	case *Str:
		lo, hi, _ := lohi(v.Len(), v.Len())
		return x.subStr(v, lo, hi)
	case SliceV:
		lo, hi, mx := lohi(v.Len, v.Cap)
		if v.Obj == 0 {
			return v
		}
		return SliceV{Obj: v.Obj, P: v.P, Off: v.Off + lo, Len: hi - lo, Cap: mx - lo}
	case Ptr:
		if v.Obj == 0 {
			x.rtPanic("slice of nil array pointer")
		}
		p := x.ptr(s, v)
		n := int(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo, hi, mx := lohi(n, n)
		return SliceV{Obj: p.Obj, P: p.P, Off: lo, Len: hi - lo, Cap: mx - lo}
	}
	panic(unsup{fmt.Sprintf("slice of %T", v)})
}

// elems returns the elements of a slice.
func (x *Exec) elems(s *State, v SliceV) []Value {
	if v.Len == 0 {
		return nil
	}
	x.ensureGlobal(s, v.Obj)
	o := x.obj(s, v.Obj)
	if o == nil {
		panic(unsup{"missing slice object"})
	}
	r := o.V
	var buf [8]int32
	for _, i := range pathIdx(v.P, buf[:0]) {
		r = child(r, i)
	}
	av, ok := r.(*ArrayV)
	if !ok {
		panic(unsup{"slice of non-array"})
	}
	return append([]Value(nil), av.E[v.Off:v.Off+v.Len]...)
}

func (x *Exec) sliceBytes(s *State, v SliceV) []*sym.Term {
	es := x.elems(s, v)
	o := make([]*sym.Term, len(es))
	for i, e := range es {
		o[i] = e.(*sym.Term)
	}
	return o
}

// setElems overwrites elements [at, at+len(vs)) of the slice.
func (x *Exec) setElems(s *State, v SliceV, at int, vs []Value) {
	if len(vs) == 0 {
		return
	}
	av := x.loadAt(s, v.Obj, v.P).(*ArrayV)
	n := append([]Value(nil), av.E...)
	copy(n[v.Off+at:], vs)
	x.storeAt(s, v.Obj, v.P, &ArrayV{n})
	x.obj(s, v.Obj).shared = false
	x.obj(s, v.Obj).owner = s.id
	if v.P != nil {
		x.obj(s, v.Obj).shared = true
	}
}

func (x *Exec) newSlice(s *State, vs []Value) SliceV {
	id := x.newObj(s, &ArrayV{append([]Value(nil), vs...)}, len(vs))
	return SliceV{Obj: id, Len: len(vs), Cap: len(vs)}
}

func (x *Exec) newByteSlice(s *State, b []*sym.Term) SliceV {
	vs := make([]Value, len(b))
	for i := range b {
		vs[i] = b[i]
	}
	return x.newSlice(s, vs)
}

func (x *Exec) concBytes(b []byte) []*sym.Term {
	o := make([]*sym.Term, len(b))
	for i := range b {
		o[i] = x.c.BV(8, uint64(b[i]))
	}
	return o
}

// ---- operators ----

func (x *Exec) unop(s *State, f *Frame, i *ssa.UnOp) Value {
	v := x.val(s, f, i.X)
	switch i.Op {
	case token.MUL:
		return x.load(s, x.ptrOf(s, v))
	case token.NOT:
		return x.c.Not(v.(*sym.Term))
	case token.SUB:
		if fl, ok := v.(float64); ok {
			return -fl
		}
		return x.c.Neg(v.(*sym.Term))
	case token.XOR:
		return x.c.BNot(v.(*sym.Term))
	}
	panic(unsup{"unop " + i.Op.String()})
}

func (x *Exec) binop(s *State, op token.Token, tx, ty types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return x.equal(s, a, b)
	case token.NEQ:
		return x.c.Not(x.equal(s, a, b))
	}
	switch a := a.(type) {
	case *sym.Term:
		return x.intOp(s, op, tx, ty, a, b.(*sym.Term))
	case *Str:
		bs := b.(*Str)
		switch op {
		case token.ADD:
			if a.B == nil && bs.B == nil {
				return concStr(a.S + bs.S)
			}
			return x.mkStr(append(append([]*sym.Term(nil), x.bytes(a)...), x.bytes(bs)...))
		case token.LSS:
			return x.strLess(a, bs)
		case token.GTR:
			return x.strLess(bs, a)
		case token.LEQ:
			return x.c.Not(x.strLess(bs, a))
		case token.GEQ:
			return x.c.Not(x.strLess(a, bs))
		}
	case float64:
		bf := b.(float64)
		switch op {
		case token.ADD:
			return a + bf
		case token.SUB:
			return a - bf
		case token.MUL:
			return a * bf
		case token.QUO:
			return a / bf
		case token.LSS:
			return x.c.Bool(a < bf)
		case token.GTR:
			return x.c.Bool(a > bf)
		case token.LEQ:
			return x.c.Bool(a <= bf)
		case token.GEQ:
			return x.c.Bool(a >= bf)
		}
	}
	panic(unsup{fmt.Sprintf("binop %s on %T", op, a)})
}

func (x *Exec) strLess(a, b *Str) *sym.Term {
	if a.B == nil && b.B == nil {
		return x.c.Bool(a.S < b.S)
	}
	return x.bytesLess(x.bytes(a), x.bytes(b))
}

func (x *Exec) bytesLess(a, b []*sym.Term) *sym.Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := x.c.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = x.c.Or(x.c.Ult(a[i], b[i]), x.c.And(x.c.Eq(a[i], b[i]), r))
	}
	return r
}

// signOf is 1 or -1 if a is non-negative or negative on this whole path, else 0.
func (x *Exec) signOf(s *State, a *sym.Term) int {
	if a.IsConst() {
		if a.C>>(uint(a.W)-1)&1 == 0 {
			return 1
		}
		return -1
	}
	neg := x.c.Slt(a, x.c.BV(a.W, 0))
	if neg.IsConst() {
		if neg.IsTrue() {
			return -1
		}
		return 1
	}
	if v, ok := s.known[neg.ID]; ok {
		if v {
			return -1
		}
		return 1
	}
	pos := x.c.Not(neg)
	if s.model != nil {
		v := x.evalBool(s.model, neg)
		other := pos
		if !v {
			other = neg
		}
		if r, _ := x.feasible(s, other); r != sym.Unsat {
			return 0
		}
		s.known[neg.ID], s.known[pos.ID] = v, !v
		if v {
			return -1
		}
		return 1
	}
	return 0
}

func (x *Exec) intOp(s *State, op token.Token, tx, ty types.Type, a, b *sym.Term) Value {
	c := x.c
	if a.K == sym.KBool {
		switch op {
		case token.AND:
			return c.And(a, b)
		case token.OR:
			return c.Or(a, b)
		}
		panic(unsup{"bool op " + op.String()})
	}
	w, sg, _ := basicInfo(tx)
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		if x.decide(s, c.Eq(b, c.BV(w, 0))) {
			x.rtPanic("integer divide by zero")
		}
		if sg && b.IsConst() && b.C>>(uint(w)-1)&1 == 0 {
			// with a decided sign, unsigned division serves
			sign := x.signOf(s, a)
			if sign > 0 && op == token.QUO {
				return c.UDiv(a, b)
			} else if sign > 0 {
				return c.URem(a, b)
			} else if sign < 0 && op == token.QUO {
				return c.Neg(c.UDiv(c.Neg(a), b))
			} else if sign < 0 {
				return c.Neg(c.URem(c.Neg(a), b))
			}
		}
		if sg {
			if op == token.QUO {
				return c.SDiv(a, b)
			}
			return c.SRem(a, b)
		}
		if op == token.QUO {
			return c.UDiv(a, b)
		}
		return c.URem(a, b)
	case token.AND:
		return c.BAnd(a, b)
	case token.OR:
		return c.BOr(a, b)
	case token.XOR:
		return c.Xor(a, b)
	case token.AND_NOT:
		return c.BAnd(a, c.BNot(b))
	case token.SHL, token.SHR:
		wb, sb, _ := basicInfo(ty)
		if sb && !b.IsConst() {
			if x.decide(s, c.Slt(b, c.BV(wb, 0))) {
				x.rtPanic("negative shift amount")
			}
		} else if sb && b.C>>(uint(wb)-1)&1 == 1 {
			x.rtPanic("negative shift amount")
		}
		var over *sym.Term = c.False
		cnt := b
		if wb > w {
			over = c.Not(c.Ult(b, c.BV(wb, uint64(w))))
			cnt = c.Extract(b, w-1, 0)
		} else if wb < w {
			cnt = c.Zext(b, w)
		}
		var r, sat *sym.Term
		switch {
		case op == token.SHL:
			r, sat = c.Shl(a, cnt), c.BV(w, 0)
		case sg && x.signOf(s, a) > 0:
			r, sat = c.Lshr(a, cnt), c.BV(w, 0)
		case sg && cnt.IsConst() && cnt.C >= uint64(w-1) && x.signOf(s, a) < 0:
			r = c.BNot(c.BV(w, 0))
			sat = r
		case sg:
			r, sat = c.Ashr(a, cnt), c.Ashr(a, c.BV(w, uint64(w-1)))
		default:
			r, sat = c.Lshr(a, cnt), c.BV(w, 0)
		}
		return c.Ite(over, sat, r)
	case token.LSS:
		if sg {
			return c.Slt(a, b)
		}
		return c.Ult(a, b)
	case token.GTR:
		if sg {
			return c.Slt(b, a)
		}
		return c.Ult(b, a)
	case token.LEQ:
		if sg {
			return c.Sle(a, b)
		}
		return c.Ule(a, b)
	case token.GEQ:
		if sg {
			return c.Sle(b, a)
		}
		return c.Ule(b, a)
	}
	panic(unsup{"int op " + op.String()})
}

func (x *Exec) equal(s *State, a, b Value) *sym.Term {
	c := x.c
	switch a := a.(type) {
	case *sym.Term:
		return c.Eq(a, b.(*sym.Term))
	case float64:
		return c.Bool(a == b.(float64))
	case *Str:
		bs := b.(*Str)
		if a.Len() != bs.Len() {
			return c.False
		}
		if a.B == nil && bs.B == nil {
			return c.Bool(a.S == bs.S)
		}
		ab, bb := x.bytes(a), x.bytes(bs)
		var cs []*sym.Term
		for i := range ab {
			e := c.Eq(ab[i], bb[i])
			if e.IsFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return c.AndN(cs...)
	case Ptr:
		bp, ok := b.(Ptr)
		if !ok {
			return c.False
		}
		if a.Obj != bp.Obj {
			return c.False
		}
		ai, ap, _, _, ok1 := x.ptrElem(a)
		bi, bp2, _, _, ok2 := x.ptrElem(bp)
		if !ok1 || !ok2 {
			return c.Bool(ok1 == ok2)
		}
		if ap != bp2 {
			return c.False
		}
		return c.Eq(ai, bi)
	case SliceV:
		bs := b.(SliceV)
		return c.Bool(a.Obj == 0 && bs.Obj == 0)
	case MapRef:
		return c.Bool(a == b.(MapRef))
	case *FuncV:
		bf, _ := b.(*FuncV)
		return c.Bool(a == nil && bf == nil)
	case Iface:
		bi, ok := b.(Iface)
		if !ok {
			panic(unsup{"interface compared with non-interface"})
		}
		if a.T == nil || bi.T == nil {
			return c.Bool(a.T == nil && bi.T == nil)
		}
		if !types.Identical(a.T, bi.T) {
			return c.False
		}
		if !types.Comparable(a.T) {
			x.rtPanic("comparing uncomparable type")
		}
		return x.equal(s, a.V, bi.V)
	case *StructV:
		bs := b.(*StructV)
		var cs []*sym.Term
		for i := range a.F {
			cs = append(cs, x.equal(s, a.F[i], bs.F[i]))
		}
		return c.AndN(cs...)
	case *ArrayV:
		bs := b.(*ArrayV)
		var cs []*sym.Term
		for i := range a.E {
			e := x.equal(s, a.E[i], bs.E[i])
			if e.IsFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return c.AndN(cs...)
	case *ErrV:
		be, ok := b.(*ErrV)
		return c.Bool(ok && be == a)
	case *TypeV:
		bt, ok := b.(*TypeV)
		return c.Bool(ok && types.Identical(a.T, bt.T))
	}
	panic(unsup{fmt.Sprintf("equality on %T", a)})
}

func (x *Exec) convert(s *State, v Value, from, to types.Type) Value {
	c := x.c
	fu, tu := from.Underlying(), to.Underlying()
	if wf, sf, ok := basicInfo(from); ok {
		t, isT := v.(*sym.Term)
		if wt, _, ok2 := basicInfo(to); ok2 && isT {
			switch {
			case wt == wf:
				return t
			case wt < wf:
				return c.Extract(t, wt-1, 0)
			case sf:
				return c.Sext(t, wt)
			default:
				return c.Zext(t, wt)
			}
		}
		if isFloat(to) && isT {
			if !t.IsConst() {
				panic(unsup{"symbolic int to float"})
			}
			if sf {
				return float64(signed(t.C, wf))
			}
			return float64(t.C)
		}
		if isString(to) {
			r := c.BV(32, 0xfffd)
			if wf <= 32 {
				if sf {
					r = c.Sext(t, 32)
				} else {
					r = c.Zext(t, 32)
				}
			} else {
				r = c.Extract(t, 31, 0)
			}
			return x.mkStr(x.encodeRune(s, r))
		}
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			panic(unsup{"int to unsafe.Pointer"})
		}
	}
	if isFloat(from) {
		fl := v.(float64)
		if isFloat(to) {
			if b := tu.(*types.Basic); b.Kind() == types.Float32 {
				return float64(float32(fl))
			}
			return fl
		}
		if w, sg, ok := basicInfo(to); ok {
			if sg {
				return c.BV(w, uint64(int64(fl))&wmask(w))
			}
			return c.BV(w, uint64(fl)&wmask(w))
		}
	}
	if isString(from) {
		st := v.(*Str)
		if sl, ok := tu.(*types.Slice); ok {
			if w, _, _ := basicInfo(sl.Elem()); w == 8 {
				return x.newByteSlice(s, x.bytes(st))
			}
			// []rune
			var out []Value
			b := x.bytes(st)
			for len(b) > 0 {
				r, n := x.decodeRune(s, b)
				out = append(out, r)
				b = b[n:]
			}
			return x.newSlice(s, out)
		}
		if isString(to) {
			return v
		}
	}
	if sl, ok := fu.(*types.Slice); ok && isString(to) {
		sv := v.(SliceV)
		if w, _, _ := basicInfo(sl.Elem()); w == 8 {
			return x.mkStr(x.sliceBytes(s, sv))
		}
		var out []*sym.Term
		for _, e := range x.elems(s, sv) {
			out = append(out, x.encodeRune(s, e.(*sym.Term))...)
		}
		return x.mkStr(out)
	}
	if sl, ok := fu.(*types.Slice); ok {
		if at, ok := tu.(*types.Array); ok {
			sv := v.(SliceV)
			_ = sl
			if int64(sv.Len) < at.Len() {
				x.rtPanic("slice to array conversion")
			}
			sv.Len = int(at.Len())
			return &ArrayV{x.elems(s, sv)}
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	panic(unsup{fmt.Sprintf("convert %s to %s", from, to)})
}

func signed(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// encodeRune forks on the encoded length.
func (x *Exec) encodeRune(s *State, r *sym.Term) []*sym.Term {
	c := x.c
	k := func(v uint64) *sym.Term { return c.BV(32, v) }
	b := func(t *sym.Term) *sym.Term { return c.Extract(t, 7, 0) }
	if x.decide(s, c.Ult(r, k(0x80))) {
		return []*sym.Term{b(r)}
	}
	six := func(sh uint64) *sym.Term {
		return b(c.BOr(k(0x80), c.BAnd(c.Lshr(r, k(sh)), k(0x3f))))
	}
	if x.decide(s, c.Ult(r, k(0x800))) {
		return []*sym.Term{b(c.BOr(k(0xc0), c.Lshr(r, k(6)))), six(0)}
	}
	bad := c.Or(c.Ult(k(0x10ffff), r), c.And(c.Ule(k(0xd800), r), c.Ule(r, k(0xdfff))))
	if x.decide(s, bad) {
		return x.concBytes([]byte("\uFFFD"))
	}
	if x.decide(s, c.Ult(r, k(0x10000))) {
		return []*sym.Term{b(c.BOr(k(0xe0), c.Lshr(r, k(12)))), six(6), six(0)}
	}
	return []*sym.Term{b(c.BOr(k(0xf0), c.Lshr(r, k(18)))), six(12), six(6), six(0)}
}

// decodeRune decodes the first rune (forking on the shape).
func (x *Exec) decodeRune(s *State, bs []*sym.Term) (*sym.Term, int) {
	c := x.c
	b0 := bs[0]
	k8 := func(v uint64) *sym.Term { return c.BV(8, v) }
	in := func(t *sym.Term, lo, hi uint64) *sym.Term {
		return c.And(c.Ule(k8(lo), t), c.Ule(t, k8(hi)))
	}
	if x.decide(s, c.Ult(b0, k8(0x80))) {
		return c.Zext(b0, 32), 1
	}
	bad := c.BV(32, 0xfffd)
	z := func(t *sym.Term, m uint64, sh uint64) *sym.Term {
		return c.Shl(c.Zext(c.BAnd(t, k8(m)), 32), c.BV(32, sh))
	}
	if len(bs) < 2 {
		return bad, 1
	}
	if x.decide(s, in(b0, 0xc2, 0xdf)) {
		if x.decide(s, in(bs[1], 0x80, 0xbf)) {
			return c.BOr(z(b0, 0x1f, 6), z(bs[1], 0x3f, 0)), 2
		}
		return bad, 1
	}
	if len(bs) < 3 {
		return bad, 1
	}
	if x.decide(s, in(b0, 0xe0, 0xef)) {
		ok1 := c.Ite(c.Eq(b0, k8(0xe0)), in(bs[1], 0xa0, 0xbf), c.Ite(c.Eq(b0, k8(0xed)), in(bs[1], 0x80, 0x9f), in(bs[1], 0x80, 0xbf)))
		if x.decide(s, c.And(ok1, in(bs[2], 0x80, 0xbf))) {
			return c.BOr(z(b0, 0xf, 12), c.BOr(z(bs[1], 0x3f, 6), z(bs[2], 0x3f, 0))), 3
		}
		return bad, 1
	}
	if len(bs) < 4 {
		return bad, 1
	}
	if x.decide(s, in(b0, 0xf0, 0xf4)) {
		ok1 := c.Ite(c.Eq(b0, k8(0xf0)), in(bs[1], 0x90, 0xbf), c.Ite(c.Eq(b0, k8(0xf4)), in(bs[1], 0x80, 0x8f), in(bs[1], 0x80, 0xbf)))
		if x.decide(s, c.AndN(ok1, in(bs[2], 0x80, 0xbf), in(bs[3], 0x80, 0xbf))) {
			return c.BOr(z(b0, 7, 18), c.BOr(z(bs[1], 0x3f, 12), c.BOr(z(bs[2], 0x3f, 6), z(bs[3], 0x3f, 0)))), 4
		}
	}
	return bad, 1
}

// ---- maps, ranges ----

func (x *Exec) mapGet(s *State, m MapRef) *MapV {
	if m.Obj == 0 {
		return &MapV{}
	}
	o := x.obj(s, m.Obj)
	if o == nil {
		panic(unsup{"missing map"})
	}
	return o.V.(*MapV)
}

func (x *Exec) mapFind(s *State, m *MapV, k Value) int {
	for i := range m.K {
		if x.decide(s, x.equal(s, m.K[i], k)) {
			return i
		}
	}
	return -1
}

func (x *Exec) mapUpdate(s *State, m MapRef, k, v Value) {
	if m.Obj == 0 {
		x.rtPanic("assignment to entry in nil map")
	}
	mv := x.mapGet(s, m)
	i := x.mapFind(s, mv, k)
	n := &MapV{K: append([]Value(nil), mv.K...), V: append([]Value(nil), mv.V...)}
	if i >= 0 {
		n.V[i] = v
	} else {
		n.K = append(n.K, k)
		n.V = append(n.V, v)
	}
	x.setObj(s, m.Obj, n)
}

func (x *Exec) lookup(s *State, f *Frame, i *ssa.Lookup) Value {
	v := x.val(s, f, i.X)
	if st, ok := v.(*Str); ok {
		return x.strIndex(s, st, x.sidx(x.term(s, f, i.Index), i.Index.Type()))
	}
	mt := i.X.Type().Underlying().(*types.Map)
	mv := x.mapGet(s, v.(MapRef))
	k := x.val(s, f, i.Index)
	j := x.mapFind(s, mv, k)
	var r Value
	if j >= 0 {
		r = mv.V[j]
	} else {
		r = x.zero(mt.Elem())
	}
	if i.CommaOk {
		return &Tuple{[]Value{r, x.c.Bool(j >= 0)}}
	}
	return r
}

func (x *Exec) rangeOver(s *State, v Value) Value {
	id := x.newObj(s, x.c.BV(64, 0), 0)
	switch v := v.(type) {
	case *Str:
		return &IterV{Str: v, Obj: id}
	case MapRef:
		x.note("map iteration order: insertion order only")
		return &IterV{Map: x.mapGet(s, v), Obj: id}
	}
	panic(unsup{fmt.Sprintf("range over %T", v)})
}

func (x *Exec) next(s *State, f *Frame, i *ssa.Next) Value {
	it := x.val(s, f, i.Iter).(*IterV)
	pos := int(x.concretize(s, x.loadAt(s, it.Obj, nil).(*sym.Term)))
	tt := i.Type().(*types.Tuple)
	z := func(k int) Value {
		t := tt.At(k).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return x.c.False
		}
		return x.zero(t)
	}
	if it.Str != nil {
		if pos >= it.Str.Len() {
			return &Tuple{[]Value{x.c.False, z(1), z(2)}}
		}
		b := x.bytes(it.Str)[pos:]
		if len(b) > 4 {
			b = b[:4]
		}
		r, n := x.decodeRune(s, b)
		x.storeAt(s, it.Obj, nil, x.c.BV(64, uint64(pos+n)))
		return &Tuple{[]Value{x.c.True, x.c.BV(64, uint64(pos)), r}}
	}
	if pos >= len(it.Map.K) {
		return &Tuple{[]Value{x.c.False, z(1), z(2)}}
	}
	x.storeAt(s, it.Obj, nil, x.c.BV(64, uint64(pos+1)))
	return &Tuple{[]Value{x.c.True, it.Map.K[pos], it.Map.V[pos]}}
}

// ---- interfaces ----

func (x *Exec) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	if t == errT {
		return it.NumMethods() == 1 && it.Method(0).Name() == "Error"
	}
	if t == typeT {
		return true
	}
	return types.Implements(t, it)
}

func (x *Exec) typeAssert(s *State, v Iface, i *ssa.TypeAssert) Value {
	ok := false
	var r Value
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		ok = v.T != nil && x.implements(v.T, it)
		r = v
	} else {
		ok = v.T != nil && types.Identical(v.T, i.AssertedType)
		r = v.V
	}
	if !ok {
		if !i.CommaOk {
			x.rtPanic("interface conversion")
		}
		return &Tuple{[]Value{x.zero(i.AssertedType), x.c.False}}
	}
	if i.CommaOk {
		return &Tuple{[]Value{r, x.c.True}}
	}
	return r
}

// ---- calls ----

type callCtx struct {
	fn   *ssa.Function
	call *ssa.CallCommon
}

type pushed struct{}

func (x *Exec) callee(s *State, f *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		iv, ok := x.val(s, f, c.Value).(Iface)
		if !ok {
			panic(unsup{"invoke on non-interface"})
		}
		if iv.T == nil {
			x.rtPanic("nil interface method call")
		}
		fn := x.lookupMethod(iv.T, c.Method)
		if fn == nil {
			// opaque receiver
			args = append(args, iv)
			for _, a := range c.Args {
				args = append(args, x.val(s, f, a))
			}
			return opaqueMethod{iv, c.Method.Name()}, args
		}
		args = append(args, iv.V)
		for _, a := range c.Args {
			args = append(args, x.val(s, f, a))
		}
		return &FuncV{Fn: fn}, args
	}
	for _, a := range c.Args {
		args = append(args, x.val(s, f, a))
	}
	return x.val(s, f, c.Value), args
}

type opaqueMethod struct {
	recv Iface
	name string
}

func (x *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	if t == errT || t == typeT || t == hashT {
		return nil
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	return x.Prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (x *Exec) call(s *State, f *Frame, c *ssa.CallCommon, i *ssa.Call) bool {
	fv0, args := x.callee(s, f, c)
	set := func(r Value) {
		g := s.wtop()
		if r == nil {
			r = &Tuple{}
		}
		g.regs[g.info.reg[i]] = r
		g.pc++
	}
	if om, ok := fv0.(opaqueMethod); ok {
		set(x.opaqueCall(s, om, args))
		return false
	}
	fv := fv0.(*FuncV)
	if fv == nil {
		x.rtPanic("call of nil function")
	}
	if fv.Bi != nil {
		set(x.builtin(s, f, fv.Bi, c, args))
		return false
	}
	fn := fv.Fn
	if x.hasSel {
		for _, a := range args {
			if _, ok := a.(*StrSel); !ok {
				continue
			}
			if len(fv.Bind) == 0 && x.tabDepth == 0 {
				if r, ok := x.tabCall(s, fn, args); ok {
					set(r)
					return false
				}
			}
			break
		}
	}
	if it := x.lookupIntrinsic(fn); it != nil {
		if x.hasSel {
			for k, a := range args {
				if sel, ok := a.(*StrSel); ok {
					args[k] = concStr(sel.Tab[x.concretize(s, sel.Idx)])
				}
			}
		}
		r := it(x, s, &callCtx{fn: fn, call: c}, args)
		if _, p := r.(pushed); p {
			return true
		}
		set(r)
		return false
	}
	if x.initMode && len(s.frames) == 1 && fn.Name() == "init" && fn.Synthetic != "" {
		set(&Tuple{}) // other packages initialise lazily
		return false
	}
	pre := x.fullKey(s)
	s.pruneCaller()
	x.pushFrame(s, fn, args, fv.Bind, retStore, pre, c)
	return true
}

func (x *Exec) builtin(s *State, f *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	k := func(n int) Value { return x.c.BV(64, uint64(n)) }
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *Str:
			return k(v.Len())
		case SliceV:
			return k(v.Len)
		case *ArrayV:
			return k(len(v.E))
		case MapRef:
			return k(len(x.mapGet(s, v).K))
		case Ptr:
			return k(int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch v := args[0].(type) {
		case SliceV:
			return k(v.Cap)
		case *ArrayV:
			return k(len(v.E))
		}
	case "append":
		return x.appendVals(s, args[0].(SliceV), args[1])
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch v := args[1].(type) {
		case SliceV:
			src = x.elems(s, v)
		case *Str:
			for _, t := range x.bytes(v) {
				src = append(src, t)
			}
		}
		n := len(src)
		if d.Len < n {
			n = d.Len
		}
		x.setElems(s, d, 0, src[:n])
		return k(n)
	case "delete":
		m := args[0].(MapRef)
		mv := x.mapGet(s, m)
		if i := x.mapFind(s, mv, args[1]); i >= 0 {
			n := &MapV{}
			for j := range mv.K {
				if j != i {
					n.K = append(n.K, mv.K[j])
					n.V = append(n.V, mv.V[j])
				}
			}
			x.setObj(s, m.Obj, n)
		}
		return &Tuple{}
	case "clear":
		switch v := args[0].(type) {
		case MapRef:
			if v.Obj != 0 {
				x.setObj(s, v.Obj, &MapV{})
			}
		case SliceV:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			var vs []Value
			for i := 0; i < v.Len; i++ {
				vs = append(vs, x.zero(et))
			}
			x.setElems(s, v, 0, vs)
		}
		return &Tuple{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch av := a.(type) {
			case *sym.Term:
				rt := r.(*sym.Term)
				_, sg, _ := basicInfo(c.Args[0].Type())
				var lt *sym.Term
				if sg {
					lt = x.c.Slt(av, rt)
				} else {
					lt = x.c.Ult(av, rt)
				}
				if b.Name() == "max" {
					lt = x.c.Not(lt)
				}
				r = x.c.Ite(lt, av, rt)
			case float64:
				if b.Name() == "min" {
					r = math.Min(r.(float64), av)
				} else {
					r = math.Max(r.(float64), av)
				}
			}
		}
		return r
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		if f.mode == retUnwind && f.pv != nil {
			g := s.wtop()
			v := g.pv
			g.pv = nil
			if iv, ok := v.(Iface); ok {
				return iv
			}
			return Iface{errT, v}
		}
		return Iface{}
	case "print", "println":
		return &Tuple{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.Obj == 0 {
			x.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData", "StringData":
		switch v := args[0].(type) {
		case SliceV:
			if v.Obj == 0 {
				return Ptr{}
			}
			return Ptr{Obj: v.Obj, P: x.path(v.P, int32(v.Off))}
		case *Str:
			sl := x.newByteSlice(s, x.bytes(v))
			if sl.Len == 0 {
				return Ptr{}
			}
			return Ptr{Obj: sl.Obj, P: x.path(nil, 0)}
		}
	case "String":
		n := int(x.concretize(s, args[1].(*sym.Term)))
		if n == 0 {
			return concStr("")
		}
		p := args[0].(Ptr)
		return x.mkStr(x.sliceBytes(s, SliceV{Obj: p.Obj, P: p.P.up, Off: int(p.P.i), Len: n, Cap: n}))
	case "Slice":
		n := int(x.concretize(s, args[1].(*sym.Term)))
		p := args[0].(Ptr)
		if n == 0 || p.Obj == 0 {
			return SliceV{}
		}
		return SliceV{Obj: p.Obj, P: p.P.up, Off: int(p.P.i), Len: n, Cap: n}
	}
	panic(unsup{"builtin " + b.Name()})
}

func growCap(old, need, elemBytes int) int {
	// mirrors runtime growth well enough: capacity >= need; aliasing-relevant
	// spare capacity is modelled for byte slices by size classes.
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < need {
		nc = need
	}
	if elemBytes > 0 {
		sz := nc * elemBytes
		for _, c := range sizeClasses {
			if c >= sz {
				return c / elemBytes
			}
		}
	}
	return nc
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096}

func (x *Exec) appendVals(s *State, d SliceV, v Value) Value {
	var src []Value
	switch v := v.(type) {
	case SliceV:
		src = x.elems(s, v)
	case *Str:
		for _, t := range x.bytes(v) {
			src = append(src, t)
		}
	default:
		panic(unsup{fmt.Sprintf("append of %T", v)})
	}
	if len(src) == 0 {
		return d
	}
	if d.Obj != 0 && d.Len+len(src) <= d.Cap {
		full := d
		full.Len = d.Len + len(src)
		x.setElems(s, full, d.Len, src)
		return full
	}
	n := d.Len + len(src)
	es := 0
	if t, ok := src[0].(*sym.Term); ok && t.K == sym.KBV {
		es = t.W / 8
	}
	nc := growCap(d.Cap, n, es)
	e := make([]Value, nc)
	copy(e, x.elems(s, d))
	copy(e[d.Len:], src)
	if n < nc {
		var z Value
		switch t := src[0].(type) {
		case *sym.Term:
			if t.K == sym.KBool {
				z = x.c.False
			} else if t.K == sym.KBV {
				z = x.c.BV(t.W, 0)
			}
		case *Str:
			z = concStr("")
		}
		if z == nil {
			nc = n
			e = e[:n]
		} else {
			for i := n; i < nc; i++ {
				e[i] = z
			}
		}
	}
	id := x.newObj(s, &ArrayV{e}, nc)
	return SliceV{Obj: id, Len: n, Cap: nc}
}

var _ = big.NewInt
