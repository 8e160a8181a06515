package exec

import (
	"encoding/binary"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

type deferred struct {
	fn   Value // *FuncV
	args []Value
	key  int32
}

type retMode uint8

const (
	retStore  retMode = iota // store result in caller's call instruction
	retDefer                 // running a deferred call from RunDefers
	retUnwind                // running a deferred call while panicking
	retMarker                // vh.Panics body
	retTop
	retTab // concreteCall
)

type Frame struct {
	fn     *ssa.Function
	info   *FnInfo
	block  *ssa.BasicBlock
	pc     int
	regs   []Value
	iters  []int32
	defers []deferred
	prefix []int32 // key of the parent position + fn id
	pid    int32   // interned prefix
	mode   retMode
	owner  int64
	caller *ssa.CallCommon
	pv     Value // in-flight panic while this deferred call runs
}

type inputRec struct {
	name string
	t    *sym.Term
}

type obsRec struct {
	label string
	v     Value
	t     types.Type
}

type State struct {
	id      int64
	frames  []*Frame
	heap    map[ObjID]*Obj
	conj    []*sym.Term
	known   map[int32]bool
	model   sym.Model // satisfies conj (nil: unknown)
	nax     int       // axioms looked at when axVars was set
	nconj   int
	axVars  *sym.VarSet // the relevant axioms of these variables hold in model
	names   map[string]int
	obs     []obsRec
	key     []int32
	panick  Value // non-nil while unwinding
	npanic  int
	merged  int
	ctr     int // per-instruction allocation counter
	enumN   int
	asserts int
	dom     map[int32]*domain // values still allowed per small root
	split   []int32
	multi   *sym.VarSet // variables in non-unary constraints
}

type domain struct {
	root *sym.Term
	ok   []bool
}

func (x *Exec) newSID() int64 { x.sid++; return x.sid }

func (x *Exec) fork(s *State) *State {
	x.forks++
	n := &State{}
	*n = *s
	n.id = x.newSID()
	s.id = x.newSID()
	n.frames = append([]*Frame(nil), s.frames...)
	n.heap = make(map[ObjID]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.conj = append(make([]*sym.Term, 0, len(s.conj)+8), s.conj...)
	n.known = make(map[int32]bool, len(s.known))
	for k, v := range s.known {
		n.known[k] = v
	}
	n.names = make(map[string]int, len(s.names))
	for k, v := range s.names {
		n.names[k] = v
	}
	n.obs = append([]obsRec(nil), s.obs...)
	n.dom = make(map[int32]*domain, len(s.dom))
	for k, v := range s.dom {
		n.dom[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// wtop returns the top frame, private to this state.
func (s *State) wtop() *Frame {
	i := len(s.frames) - 1
	f := s.frames[i]
	if f.owner != s.id {
		n := *f
		n.regs = append([]Value(nil), f.regs...)
		n.iters = append([]int32(nil), f.iters...)
		n.defers = append([]deferred(nil), f.defers...)
		n.owner = s.id
		s.frames[i] = &n
		f = &n
	}
	return f
}

// posKey appends the position of the frame (without instruction).
func (f *Frame) posKey(k []int32) []int32 {
	b := f.block.Index
	sq, ls := f.info.seq[b], f.info.loops[b]
	for i, l := range ls {
		k = append(k, sq[i], f.iters[l])
	}
	return append(k, sq[len(ls)])
}

func (x *Exec) fullKey(s *State) []int32 {
	f := s.top()
	k := append(make([]int32, 0, len(f.prefix)+8), f.prefix...)
	k = f.posKey(k)
	return append(k, int32(f.pc))
}

// mergeKey orders the worklist; states with equal keys may merge. Explicit
// case splits (vh.Pick, vh.Split, vh.Concrete) keep states apart for good.
func (x *Exec) mergeKey(s *State) []int32 {
	return append(append(make([]int32, 0, len(s.split)+16), s.split...), x.fullKey(s)...)
}

func keyStr(k []int32) string {
	b := make([]byte, 4*len(k))
	for i, v := range k {
		binary.BigEndian.PutUint32(b[4*i:], uint32(v))
	}
	return string(b)
}

func keyLess(a, b []int32) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

// allocID returns an object id determined by the execution position.
func (x *Exec) allocID(s *State, extra int) ObjID {
	k := append(x.fullKey(s), int32(s.ctr), int32(extra), -7)
	s.ctr++
	return ObjID(x.intern(k))
}

func (x *Exec) intern(k []int32) int32 {
	ks := keyStr(k)
	if id, ok := x.ids[ks]; ok {
		return id
	}
	id := int32(len(x.ids) + 1000)
	x.ids[ks] = id
	return id
}

func (x *Exec) freshName(s *State, p string) string {
	k := append(x.fullKey(s), int32(s.ctr), -9)
	s.ctr++
	return p + "!" + itoa(int(x.intern(k)))
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

// ---- heap ----

func (x *Exec) obj(s *State, id ObjID) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	if o, ok := x.base[id]; ok {
		return o
	}
	return nil
}

func (x *Exec) newObj(s *State, v Value, extra int) ObjID {
	id := x.allocID(s, extra)
	x.setObj(s, id, v)
	return id
}

func (x *Exec) setObj(s *State, id ObjID, v Value) {
	o := &Obj{V: v, owner: s.id}
	if x.initMode {
		x.base[id] = o
		delete(s.heap, id)
		return
	}
	s.heap[id] = o
}

func pathIdx(p *Path, buf []int32) []int32 {
	n := 0
	for q := p; q != nil; q = q.up {
		n++
	}
	for cap(buf) < n {
		buf = make([]int32, 0, n+8)
	}
	buf = buf[:n]
	for q := p; q != nil; q = q.up {
		n--
		buf[n] = q.i
	}
	return buf
}

func (x *Exec) path(up *Path, i int32) *Path {
	k := pathKey{up, i}
	if p, ok := x.paths[k]; ok {
		return p
	}
	p := &Path{up, i}
	x.paths[k] = p
	return p
}

type pathKey struct {
	up *Path
	i  int32
}

func child(v Value, i int32) Value {
	switch v := v.(type) {
	case *StructV:
		return v.F[i]
	case *ArrayV:
		return v.E[i]
	}
	panic(unsup{"bad path"})
}

func (x *Exec) loadAt(s *State, id ObjID, p *Path) Value {
	x.ensureGlobal(s, id)
	o := x.obj(s, id)
	if o == nil {
		panic(unsup{"load of missing object"})
	}
	v := o.V
	if p != nil {
		var buf [8]int32
		for _, i := range pathIdx(p, buf[:0]) {
			v = child(v, i)
		}
	}
	switch v.(type) {
	case *StructV, *ArrayV:
		o.shared = true
	case poison:
		panic(unsup{"use of value whose initialiser is not modelled: " + string(v.(poison))})
	}
	return v
}

type poison string

func setPath(v Value, p []int32, nv Value, inplace bool) Value {
	if len(p) == 0 {
		return nv
	}
	switch v := v.(type) {
	case *StructV:
		c := setPath(v.F[p[0]], p[1:], nv, false)
		if inplace {
			v.F[p[0]] = c
			return v
		}
		f := append([]Value(nil), v.F...)
		f[p[0]] = c
		return &StructV{f}
	case *ArrayV:
		c := setPath(v.E[p[0]], p[1:], nv, false)
		if inplace {
			v.E[p[0]] = c
			return v
		}
		f := append([]Value(nil), v.E...)
		f[p[0]] = c
		return &ArrayV{f}
	}
	panic(unsup{"store into non-aggregate"})
}

func (x *Exec) storeAt(s *State, id ObjID, p *Path, nv Value) {
	x.ensureGlobal(s, id)
	o := x.obj(s, id)
	if o == nil {
		panic(unsup{"store to missing object"})
	}
	if p == nil {
		x.setObj(s, id, nv)
		if _, agg := nv.(*StructV); agg {
			x.obj(s, id).shared = true
		}
		if _, agg := nv.(*ArrayV); agg {
			x.obj(s, id).shared = true
		}
		return
	}
	var buf [8]int32
	idx := pathIdx(p, buf[:0])
	if !o.shared && o.owner == s.id {
		o.V = setPath(o.V, idx, nv, true)
		return
	}
	x.setObj(s, id, setPath(o.V, idx, nv, false))
}

// ---- pointers ----

func (x *Exec) load(s *State, p Ptr) Value {
	if p.Idx == nil {
		return x.loadAt(s, p.Obj, p.P)
	}
	x.ensureGlobal(s, p.Obj)
	av, ok := x.loadAt(s, p.Obj, p.P).(*ArrayV)
	if !ok {
		panic(unsup{"symbolic index into non-array"})
	}
	return x.mux(s, av.E, int(p.Lo), int(p.Hi), p.Idx)
}

func (x *Exec) store(s *State, p Ptr, v Value) {
	if p.Idx == nil {
		x.storeAt(s, p.Obj, p.P, v)
		return
	}
	av, ok := x.loadAt(s, p.Obj, p.P).(*ArrayV)
	if !ok {
		panic(unsup{"symbolic index into non-array"})
	}
	lo, hi := x.idxRange(p.Idx, int(p.Lo), int(p.Hi))
	n := append([]Value(nil), av.E...)
	for i := lo; i < hi; i++ {
		c := x.c.Eq(p.Idx, x.c.BV(64, uint64(i)))
		if c.IsFalse() {
			continue
		}
		m, ok := x.mergeVal(c, v, n[i])
		if !ok {
			panic(unsup{"symbolic store of unmergeable value"})
		}
		n[i] = m
	}
	x.storeAt(s, p.Obj, p.P, &ArrayV{n})
}

func (x *Exec) idxRange(idx *sym.Term, lo, hi int) (int, int) {
	ulo, uhi := idx.URange()
	if ulo > uint64(lo) {
		if ulo >= uint64(hi) {
			return hi, hi
		}
		lo = int(ulo)
	}
	if uhi < uint64(hi) {
		hi = int(uhi) + 1
	}
	return lo, hi
}

// mux selects es[idx] for idx in [lo,hi).
func (x *Exec) mux(s *State, es []Value, lo, hi int, idx *sym.Term) Value {
	if idx.IsConst() {
		return es[idx.C]
	}
	l, h := x.idxRange(idx, lo, hi)
	if h <= l {
		return es[lo]
	}
	allc := true
	w := 0
	for i := l; i < h; i++ {
		t, ok := es[i].(*sym.Term)
		if !ok || !t.IsConst() || t.K != sym.KBV {
			allc = false
			break
		}
		w = t.W
	}
	if allc {
		tab := make([]uint64, h)
		for i := l; i < h; i++ {
			tab[i] = es[i].(*sym.Term).C
		}
		return x.c.SelectConst(tab, idx, w)
	}
	if v := x.strSel(es, lo, hi, idx); v != nil && h-l >= selMin {
		return v
	}
	var acc Value = es[h-1]
	for i := h - 2; i >= l; i-- {
		m, ok := x.mergeVal(x.c.Eq(idx, x.c.BV(64, uint64(i))), es[i], acc)
		if !ok {
			return es[x.concretize(s, idx)]
		}
		acc = m
	}
	return acc
}

// ---- merging ----

func (x *Exec) mergeVal(g *sym.Term, a, b Value) (Value, bool) {
	if g.IsTrue() {
		return a, true
	}
	if g.IsFalse() {
		return b, true
	}
	if eqShallow(a, b) {
		return a, true
	}
	switch a := a.(type) {
	case *sym.Term:
		b, ok := b.(*sym.Term)
		if !ok || a.K != b.K || a.W != b.W {
			return nil, false
		}
		return x.c.Ite(g, a, b), true
	case *Str:
		b, ok := b.(*Str)
		if !ok || a.Len() != b.Len() {
			return nil, false
		}
		ab, bb := x.bytes(a), x.bytes(b)
		o := make([]*sym.Term, len(ab))
		for i := range ab {
			o[i] = x.c.Ite(g, ab[i], bb[i])
		}
		return x.mkStr(o), true
	case *StructV:
		b, ok := b.(*StructV)
		if !ok || len(a.F) != len(b.F) {
			return nil, false
		}
		o := make([]Value, len(a.F))
		for i := range o {
			m, ok := x.mergeVal(g, a.F[i], b.F[i])
			if !ok {
				return nil, false
			}
			o[i] = m
		}
		return &StructV{o}, true
	case *ArrayV:
		b, ok := b.(*ArrayV)
		if !ok || len(a.E) != len(b.E) {
			return nil, false
		}
		o := make([]Value, len(a.E))
		for i := range o {
			m, ok := x.mergeVal(g, a.E[i], b.E[i])
			if !ok {
				return nil, false
			}
			o[i] = m
		}
		return &ArrayV{o}, true
	case *Tuple:
		b, ok := b.(*Tuple)
		if !ok || len(a.V) != len(b.V) {
			return nil, false
		}
		o := make([]Value, len(a.V))
		for i := range o {
			m, ok := x.mergeVal(g, a.V[i], b.V[i])
			if !ok {
				return nil, false
			}
			o[i] = m
		}
		return &Tuple{o}, true
	case Iface:
		b, ok := b.(Iface)
		if !ok || a.T == nil || b.T == nil || !types.Identical(a.T, b.T) {
			return nil, false
		}
		m, ok := x.mergeVal(g, a.V, b.V)
		if !ok {
			return nil, false
		}
		return Iface{a.T, m}, true
	case *ErrV:
		if _, ok := b.(*ErrV); ok {
			return &ErrV{"merged"}, true
		}
		return nil, false
	case Ptr:
		b, ok := b.(Ptr)
		if ok && a.Obj == b.Obj && a.Obj != 0 {
			// same array, different element
			ai, ap, al, ah, ok1 := x.ptrElem(a)
			bi, bp, bl, bh, ok2 := x.ptrElem(b)
			if ok1 && ok2 && ap == bp && (a.Idx != nil || b.Idx != nil) {
				if bl < al {
					al = bl
				}
				if bh > ah {
					ah = bh
				}
				return Ptr{Obj: a.Obj, P: ap, Idx: x.c.Ite(g, ai, bi), Lo: al, Hi: ah}, true
			}
		}
		return nil, false
	case *FuncV:
		b, ok := b.(*FuncV)
		if !ok || a == nil || b == nil || a.Fn != b.Fn || a.Bi != b.Bi || len(a.Bind) != len(b.Bind) {
			return nil, false
		}
		o := make([]Value, len(a.Bind))
		for i := range o {
			m, ok := x.mergeVal(g, a.Bind[i], b.Bind[i])
			if !ok {
				return nil, false
			}
			o[i] = m
		}
		return &FuncV{Fn: a.Fn, Bind: o}, true
	case *MapV:
		b, ok := b.(*MapV)
		if !ok || len(a.K) != len(b.K) {
			return nil, false
		}
		n := &MapV{}
		for i := range a.K {
			k, ok := x.mergeVal(g, a.K[i], b.K[i])
			if !ok {
				return nil, false
			}
			v, ok := x.mergeVal(g, a.V[i], b.V[i])
			if !ok {
				return nil, false
			}
			n.K = append(n.K, k)
			n.V = append(n.V, v)
		}
		return n, true
	}
	return nil, false
}

func (x *Exec) ptrElem(p Ptr) (*sym.Term, *Path, int32, int32, bool) {
	if p.Idx != nil {
		return p.Idx, p.P, p.Lo, p.Hi, true
	}
	if p.P == nil {
		return nil, nil, 0, 0, false
	}
	return x.c.BV(64, uint64(p.P.i)), p.P.up, p.P.i, p.P.i + 1, true
}

func eqShallow(a, b Value) bool {
	switch a := a.(type) {
	case *Str:
		if bs, ok := b.(*Str); ok {
			if a == bs {
				return true
			}
			return a.B == nil && bs.B == nil && a.S == bs.S
		}
		return false
	case *StrSel:
		bs, ok := b.(*StrSel)
		return ok && (a == bs || a.Idx == bs.Idx && len(a.Tab) == len(bs.Tab) && &a.Tab[0] == &bs.Tab[0])
	case Iface:
		bi, ok := b.(Iface)
		if !ok {
			return false
		}
		if a.T == nil || bi.T == nil {
			return a.T == nil && bi.T == nil
		}
		return types.Identical(a.T, bi.T) && eqShallow(a.V, bi.V)
	}
	return a == b
}

// tryMerge merges b into a (same key). Returns false if not possible.
func (x *Exec) tryMerge(a, b *State) (*State, bool) {
	if len(a.frames) != len(b.frames) || (a.panick == nil) != (b.panick == nil) || a.npanic != b.npanic {
		return nil, false
	}
	if x.noMerge {
		return nil, false
	}
	if len(a.names) != len(b.names) {
		return nil, false
	}
	for k, v := range a.names {
		if b.names[k] != v {
			return nil, false
		}
	}
	if len(a.obs) != len(b.obs) {
		return nil, false
	}
	if !x.mergeable(a, b) {
		return nil, false
	}
	// path condition difference
	n := 0
	for n < len(a.conj) && n < len(b.conj) && a.conj[n] == b.conj[n] {
		n++
	}
	ra := x.c.AndN(a.conj[n:]...)
	rb := x.c.AndN(b.conj[n:]...)
	g := ra
	if nb := x.c.Not(rb); len(b.conj)-n < len(a.conj)-n {
		g = nb
	}
	type fm struct {
		f *Frame
	}
	nf := make([]*Frame, len(a.frames))
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		if fa == fb {
			nf[i] = fa
			continue
		}
		if fa.fn != fb.fn || fa.block != fb.block || fa.pc != fb.pc || len(fa.defers) != len(fb.defers) || fa.mode != fb.mode || fa.pid != fb.pid {
			return nil, false
		}
		for j := range fa.iters {
			// counters of loops we are inside must agree (they are in the key); others reset on entry
			_ = j
		}
		m := *fa
		m.regs = make([]Value, len(fa.regs))
		for j := range fa.regs {
			va, vb := fa.regs[j], fb.regs[j]
			if va == nil || vb == nil {
				continue
			}
			mv, ok := x.mergeVal(g, va, vb)
			if !ok {
				return nil, false
			}
			m.regs[j] = mv
		}
		m.defers = append([]deferred(nil), fa.defers...)
		for j := range fa.defers {
			da, db := fa.defers[j], fb.defers[j]
			if da.key != db.key || len(da.args) != len(db.args) {
				return nil, false
			}
			fv, ok := x.mergeVal(g, da.fn, db.fn)
			if !ok {
				return nil, false
			}
			nd := deferred{fn: fv, key: da.key}
			for q := range da.args {
				mv, ok := x.mergeVal(g, da.args[q], db.args[q])
				if !ok {
					return nil, false
				}
				nd.args = append(nd.args, mv)
			}
			m.defers[j] = nd
		}
		m.owner = -1
		m.iters = append([]int32(nil), fa.iters...)
		nf[i] = &m
	}
	if a.panick != nil {
		if _, ok := x.mergeVal(g, a.panick, b.panick); !ok {
			a.panick = &ErrV{"merged panic"}
		}
	}
	obs := make([]obsRec, len(a.obs))
	for i := range a.obs {
		if a.obs[i].label != b.obs[i].label {
			return nil, false
		}
		mv, ok := x.mergeVal(g, a.obs[i].v, b.obs[i].v)
		if !ok {
			return nil, false
		}
		obs[i] = obsRec{a.obs[i].label, mv, a.obs[i].t}
	}
	// heap
	id := x.newSID()
	heap := make(map[ObjID]*Obj, len(a.heap)+8)
	var conflict []ObjID
	for k, oa := range a.heap {
		ob, ok := b.heap[k]
		if !ok {
			ob, ok = x.base[k]
		}
		if !ok || oa == ob {
			heap[k] = oa
			continue
		}
		mv, ok := x.mergeVal(g, oa.V, ob.V)
		if !ok {
			conflict = append(conflict, k)
			continue
		}
		heap[k] = &Obj{V: mv, owner: id}
		heap[k].shared = true
	}
	for k, ob := range b.heap {
		if _, ok := a.heap[k]; ok {
			continue
		}
		if oa, ok := x.base[k]; ok && oa != ob {
			mv, ok := x.mergeVal(g, oa.V, ob.V)
			if !ok {
				return nil, false
			}
			heap[k] = &Obj{V: mv, owner: id, shared: true}
			continue
		}
		heap[k] = ob
	}
	r := &State{id: id, frames: nf, heap: heap, names: a.names, obs: obs, key: a.key, panick: a.panick, npanic: a.npanic, merged: a.merged + b.merged + 1, asserts: a.asserts}
	if len(conflict) > 0 {
		reach := x.reachable(r)
		for _, k := range conflict {
			if reach[k] {
				return nil, false
			}
		}
	}
	r.conj = append(make([]*sym.Term, 0, n+4), a.conj[:n]...)
	r.dom = map[int32]*domain{}
	for k, da := range a.dom {
		db, ok := b.dom[k]
		if !ok {
			continue
		}
		if da == db {
			r.dom[k] = da
			continue
		}
		nd := &domain{da.root, make([]bool, len(da.ok))}
		for i := range nd.ok {
			nd.ok[i] = da.ok[i] || db.ok[i]
		}
		r.dom[k] = nd
	}
	r.multi = a.multi
	if b.multi != a.multi {
		r.multi = a.multi.Clone()
		r.multi.Or(b.multi)
	}
	r.known = map[int32]bool{}
	for k, v := range a.known {
		if bv, ok := b.known[k]; ok && bv == v {
			r.known[k] = v
		}
	}
	// both sides may already know the disjunction, but from conjuncts dropped here
	or := x.c.Or(ra, rb)
	delete(r.known, or.ID)
	if or.Op == sym.OAnd {
		for _, t := range or.A {
			delete(r.known, t.ID)
		}
	}
	x.addConj(r, or)
	if a.model != nil {
		r.model = a.model
	} else {
		r.model = b.model
	}
	r.axVars = nil
	x.merges++
	return r, true
}

// reachable returns the objects reachable from live registers.
func (x *Exec) reachable(s *State) map[ObjID]bool {
	seen := map[ObjID]bool{}
	var visit func(v Value)
	var visitObj func(id ObjID)
	visitObj = func(id ObjID) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		if o := x.obj(s, id); o != nil {
			visit(o.V)
		}
	}
	visit = func(v Value) {
		switch v := v.(type) {
		case Ptr:
			visitObj(v.Obj)
		case SliceV:
			visitObj(v.Obj)
		case MapRef:
			visitObj(v.Obj)
		case *StructV:
			for _, f := range v.F {
				visit(f)
			}
		case *ArrayV:
			for _, f := range v.E {
				if _, t := f.(*sym.Term); t {
					break
				}
				visit(f)
			}
		case *Tuple:
			for _, f := range v.V {
				visit(f)
			}
		case Iface:
			visit(v.V)
		case *FuncV:
			if v != nil {
				for _, f := range v.Bind {
					visit(f)
				}
			}
		case *MapV:
			for i := range v.K {
				visit(v.K[i])
				visit(v.V[i])
			}
		case *IterV:
			visitObj(v.Obj)
		}
	}
	for _, f := range s.frames {
		for _, v := range f.regs {
			visit(v)
		}
		for _, d := range f.defers {
			visit(d.fn)
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for id := range s.heap {
		if _, ok := x.base[id]; ok {
			visitObj(id)
		}
	}
	return seen
}

// ---- path condition ----

func (x *Exec) addConj(s *State, t *sym.Term) {
	if t.IsTrue() {
		return
	}
	if t.Op == sym.OAnd {
		for _, a := range t.A {
			x.addConj(s, a)
		}
		return
	}
	if v, ok := s.known[t.ID]; ok && v {
		return
	}
	s.conj = append(s.conj, t)
	s.known[t.ID] = true
	s.known[x.c.Not(t).ID] = false
	if root, tab := x.c.Root(t); root != nil && tab != nil {
		od := s.dom[root.ID]
		nd := &domain{root, make([]bool, len(tab))}
		for i := range tab {
			nd.ok[i] = tab[i] != 0 && (od == nil || od.ok[i])
		}
		s.dom[root.ID] = nd
		if root.Op == sym.OVar {
			return
		}
	}
	m := s.multi.Clone()
	m.Or(x.c.VarsOf(t))
	s.multi = m
}

// domCheck decides a unary condition from the recorded domains.
// res: 0 unknown, 1 always true, 2 always false, 3 both possible with models.
func (x *Exec) domCheck(s *State, cond *sym.Term) (res int, mt, mf sym.Model) {
	root, tab := x.c.Root(cond)
	if root == nil || tab == nil {
		return
	}
	d := s.dom[root.ID]
	vt, vf := -1, -1
	for i := range tab {
		if d != nil && !d.ok[i] {
			continue
		}
		if tab[i] != 0 {
			if vt < 0 {
				vt = i
			}
		} else if vf < 0 {
			vf = i
		}
	}
	if vf < 0 {
		return 1, nil, nil
	}
	if vt < 0 {
		return 2, nil, nil
	}
	if root.Op != sym.OVar || s.model == nil {
		return
	}
	ix := int32(x.c.VarIndex(root))
	if s.multi.Has(ix) || x.axVars().Has(ix) {
		return
	}
	with := func(v int) sym.Model {
		m := make(sym.Model, len(s.model)+1)
		for k, q := range s.model {
			m[k] = q
		}
		m[root] = big.NewInt(int64(v))
		return m
	}
	if x.evalBool(s.model, cond) {
		return 3, s.model, with(vf)
	}
	return 3, with(vt), s.model
}

func (x *Exec) axVars() *sym.VarSet {
	if x.axv == nil || x.axn != len(x.axioms) {
		x.axv = &sym.VarSet{}
		for _, t := range x.axioms {
			x.axv.Or(x.c.VarsOf(t))
		}
		x.axn = len(x.axioms)
	}
	return x.axv
}
