package exec

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

type unsup struct{ msg string }
type forkSig struct {
	cond   *sym.Term
	mt, mf sym.Model
}
type pathEnd struct{}
type goPanic struct{ v Value }

// Obligation is a proof obligation: Conj must be unsatisfiable.
type Obligation struct {
	Label  string
	Kind   string // assert | panic
	Conj   []*sym.Term
	Model  sym.Model // already a counterexample
	Where  string
	Obs    []obsRec
	Result sym.Result
	Solver string
	Base   sym.Model // model of the path condition alone (nil if unknown)
	Extra  *sym.Term
}

type EndState struct {
	Conj  []*sym.Term
	Model sym.Model
	Obs   []obsRec
}

type Exec struct {
	c        *sym.Ctx
	Prog     *ssa.Program
	inc      *sym.Inc
	ids      map[string]int32
	fnIDs    map[*ssa.Function]int32
	fnNames  map[string]bool
	paths    map[pathKey]*Path
	base     map[ObjID]*Obj
	globals  map[*ssa.Global]ObjID
	globObj  map[ObjID]*ssa.Global
	initDone map[*ssa.Package]bool
	initMode bool
	hasSel   bool // a StrSel was made
	tabCache map[tabKey][]Value
	tabRes   Value
	selSame  map[[2]*string]bool
	selTabs  map[selKey][]string
	tabDepth int
	noMerge  bool
	sid      int64
	wl       worklist
	items    map[string]*wlItem
	pending  []*State
	axioms   []*sym.Term
	insts    []instance
	owned    *sym.VarSet
	axInst   [][]int // applications each axiom speaks of
	ecs      *ecState
	b2iLog   []b2iEntry
	ufs      map[string][]ufCall
	Tier     int
	Inputs   map[string]*sym.Term
	InputLst []string
	Oblig    []*Obligation
	Ends     []*EndState
	Stuck    []*EndState // paths given up (unsupported, bounds, time)
	Covers   map[string]int
	Labels   map[string]int
	trivial  map[string]int
	feasC    map[string]feasRes
	evs      map[*sym.Term]bool

	forks, merges, steps int
	endCount             int
	Deadline             time.Time
	Incomplete           []string
	MaxStates            int
	Notes                map[string]bool
	UFUsed               bool
	Verbose              bool
	fnDepth              int
	curFn                string
	evCache              map[*sym.Evaluator]bool
	evFor                sym.Model
	evLast               *sym.Evaluator
	pkgIntr              map[*ssa.Function]intrinsic
	conc                 int
	axv                  *sym.VarSet
	axn                  int
}

type feasRes struct {
	r sym.Result
	m sym.Model
}

type ufCall struct {
	in  []*sym.Term
	out []*sym.Term
}

func New(prog *ssa.Program) *Exec {
	c := sym.NewCtx()
	x := &Exec{
		c: c, Prog: prog, inc: sym.NewInc(c),
		ids: map[string]int32{}, fnIDs: map[*ssa.Function]int32{}, paths: map[pathKey]*Path{},
		base: map[ObjID]*Obj{}, globals: map[*ssa.Global]ObjID{}, globObj: map[ObjID]*ssa.Global{},
		initDone: map[*ssa.Package]bool{}, items: map[string]*wlItem{}, ufs: map[string][]ufCall{},
		Inputs: map[string]*sym.Term{}, Covers: map[string]int{}, Labels: map[string]int{}, trivial: map[string]int{},
		feasC: map[string]feasRes{}, Notes: map[string]bool{}, MaxStates: 200000, fnNames: map[string]bool{},
		pkgIntr: map[*ssa.Function]intrinsic{},
	}
	return x
}

func (x *Exec) Ctx() *sym.Ctx           { return x.c }
func (x *Exec) Close()                  { x.inc.Close() }
func (x *Exec) Stats() (int, int, int)  { return x.steps, x.forks, x.merges }
func (x *Exec) Axioms() []*sym.Term     { return x.axioms }
func (x *Exec) EndCount() int           { return x.endCount }
func (x *Exec) Trivial() map[string]int { return x.trivial }
func (x *Exec) Functions() []string {
	var o []string
	for k := range x.fnNames {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func (x *Exec) note(s string) { x.Notes[s] = true }

// ---- worklist ----

type wlItem struct {
	key    []int32
	states []*State
	idx    int
}
type worklist []*wlItem

func (w worklist) Len() int            { return len(w) }
func (w worklist) Less(i, j int) bool  { return keyLess(w[i].key, w[j].key) < 0 }
func (w worklist) Swap(i, j int)       { w[i], w[j] = w[j], w[i]; w[i].idx = i; w[j].idx = j }
func (w *worklist) Push(v interface{}) { it := v.(*wlItem); it.idx = len(*w); *w = append(*w, it) }
func (w *worklist) Pop() interface{} {
	o := *w
	n := len(o) - 1
	v := o[n]
	*w = o[:n]
	return v
}

func (x *Exec) push(s *State) {
	if s.panick != nil {
		s.key = append(x.mergeKey(s), 1<<30)
	} else {
		s.key = x.mergeKey(s)
	}
	ks := keyStr(s.key)
	it := x.items[ks]
	if it == nil {
		it = &wlItem{key: s.key}
		x.items[ks] = it
		heap.Push(&x.wl, it)
	}
	for i, o := range it.states {
		if m, ok := x.tryMerge(o, s); ok {
			it.states[i] = m
			return
		}
	}
	it.states = append(it.states, s)
}

func (x *Exec) pop() *State {
	it := x.wl[0]
	s := it.states[0]
	it.states = it.states[1:]
	if len(it.states) == 0 {
		heap.Pop(&x.wl)
		delete(x.items, keyStr(it.key))
	}
	return s
}

// Run executes fn (no parameters) symbolically to completion.
func (x *Exec) Run(fn *ssa.Function) {
	ensureBuilt(fn)
	s := &State{id: x.newSID(), heap: map[ObjID]*Obj{}, known: map[int32]bool{}, names: map[string]int{}, model: sym.Model{}, dom: map[int32]*domain{}, multi: &sym.VarSet{}}
	x.pushFrame(s, fn, nil, nil, retTop, []int32{0}, nil)
	x.push(s)
	x.loop()
}

func (x *Exec) loop() {
	for len(x.wl) > 0 || len(x.pending) > 0 {
		if !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
			n := len(x.pending)
			at := ""
			for _, s := range x.pending {
				x.stuck(s)
				at = s.where()
			}
			if at == "" {
				at = x.wl[0].states[0].where()
			}
			for _, it := range x.wl {
				n += len(it.states)
			}
			x.incomplete(fmt.Sprintf("time budget exhausted with %d states pending (at %s)", n, at))
			for _, it := range x.wl {
				for _, s := range it.states {
					x.stuck(s)
				}
			}
			return
		}
		var s *State
		if k := len(x.pending); k > 0 {
			s = x.pending[k-1]
			x.pending = x.pending[:k-1]
		} else {
			s = x.pop()
		}
		for {
			if !x.runSlice(s) {
				break
			}
			if len(x.pending) > 0 {
				x.push(s)
				break
			}
			if len(x.wl) == 0 {
				if x.steps&1023 == 0 && !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
					x.push(s)
					break
				}
				continue
			}
			k := x.mergeKey(s)
			if s.panick == nil && keyLess(k, x.wl[0].key) < 0 {
				continue
			}
			x.push(s)
			break
		}
	}
}

func (x *Exec) stuck(s *State) {
	if len(x.Stuck) < 24 {
		x.Stuck = append(x.Stuck, &EndState{append([]*sym.Term(nil), s.conj...), s.model, nil})
	}
}

func (x *Exec) incomplete(msg string) {
	x.Incomplete = append(x.Incomplete, msg)
}

func (s *State) where() string {
	o := ""
	for i := len(s.frames) - 1; i >= 0 && i >= len(s.frames)-4; i-- {
		f := s.frames[i]
		p := ""
		if f.pc < len(f.block.Instrs) {
			if pos := f.block.Instrs[f.pc].Pos(); pos.IsValid() {
				ps := f.fn.Prog.Fset.Position(pos)
				p = fmt.Sprintf(":%d", ps.Line)
			}
		}
		if o != "" {
			o += " < "
		}
		o += f.fn.String() + p
	}
	return o
}

// runSlice runs until a block change, return or fork. Returns false if the path ended (or was split).
func (x *Exec) runSlice(s *State) (alive bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case forkSig:
			if x.initMode {
				x.initFail(s, "symbolic branch in initialiser")
				alive = true
				return
			}
			n := x.fork(s)
			x.addConj(s, r.cond)
			s.model = r.mt
			x.addConj(n, x.c.Not(r.cond))
			n.model = r.mf
			s.ctr, n.ctr = 0, 0
			s.enumN++
			n.enumN++
			// both halves re-execute the forking instruction before they may merge
			x.pending = append(x.pending, n, s)
			alive = false
		case goPanic:
			s.panick = r.v
			if s.panick == nil {
				s.panick = &ErrV{"panic"}
			}
			s.npanic++
			alive = x.unwind(s)
		case pathEnd:
			alive = false
		case unsup:
			if x.initMode {
				x.initFail(s, r.msg)
				alive = true
				return
			}
			x.incomplete(r.msg + " at " + s.where())
			x.stuck(s)
			alive = false
		default:
			if os.Getenv("VERIF_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "engine panic: %v at %s\n%s\n", r, s.where(), debug.Stack())
			}
			msg := fmt.Sprintf("engine error: %v", r)
			if x.initMode {
				x.initFail(s, msg)
				alive = true
				return
			}
			x.incomplete(msg + " at " + s.where())
			x.stuck(s)
			alive = false
		}
	}()
	if s.panick != nil {
		return x.unwind(s)
	}
	for {
		x.steps++
		s.ctr = 0
		f := s.top()
		if x.step(s, f, f.block.Instrs[f.pc]) {
			s.enumN = 0
			return len(s.frames) > 0
		}
		s.enumN = 0
	}
}

func (x *Exec) fnID(fn *ssa.Function) int32 {
	id, ok := x.fnIDs[fn]
	if !ok {
		id = int32(len(x.fnIDs) + 1)
		x.fnIDs[fn] = id
		x.fnNames[fn.String()] = true
	}
	return id
}

func (x *Exec) pushFrame(s *State, fn *ssa.Function, args, bind []Value, mode retMode, prefix []int32, cc *ssa.CallCommon) {
	ensureBuilt(fn)
	if len(fn.Blocks) == 0 {
		panic(unsup{"no body for " + fn.String()})
	}
	if len(s.frames) > 200 {
		panic(unsup{"call depth"})
	}
	info := infoOf(fn)
	f := &Frame{fn: fn, info: info, block: fn.Blocks[0], regs: make([]Value, info.nregs), iters: make([]int32, info.nloops), mode: mode, owner: s.id, caller: cc}
	f.prefix = append(append(make([]int32, 0, len(prefix)+1), prefix...), x.fnID(fn))
	if len(args) != len(fn.Params) {
		panic(unsup{fmt.Sprintf("arity mismatch calling %s", fn)})
	}
	for i := range args {
		f.regs[i] = args[i]
	}
	for i := range bind {
		f.regs[len(args)+i] = bind[i]
	}
	s.frames = append(s.frames, f)
}

// prune drops caller registers that are dead after the call.
func (s *State) pruneCaller() {
	f := s.wtop()
	lv := f.info.liveAfter(f.block, f.pc)
	for i := range f.regs {
		if f.regs[i] != nil && !lv.has(i) {
			f.regs[i] = nil
		}
	}
}

func (x *Exec) jump(s *State, to *ssa.BasicBlock) {
	f := s.wtop()
	from := f.block
	var pi int
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	// phis in parallel
	k := 0
	var pv []Value
	for k < len(to.Instrs) {
		p, ok := to.Instrs[k].(*ssa.Phi)
		if !ok {
			break
		}
		pv = append(pv, x.val(s, f, p.Edges[pi]))
		k++
	}
	for i := 0; i < k; i++ {
		f.regs[f.info.reg[to.Instrs[i].(*ssa.Phi)]] = pv[i]
	}
	if h := f.info.head[to.Index]; h >= 0 {
		if f.info.inLoop[from.Index][h] {
			f.iters[h]++
			if f.iters[h] > 200000 {
				panic(unsup{"loop iteration limit"})
			}
		} else {
			f.iters[h] = 0
		}
	}
	// counters of loops we are not in are canonicalised for merging
	for l := range f.iters {
		if f.iters[l] != 0 && !f.info.inLoop[to.Index][int32(l)] {
			f.iters[l] = 0
		}
	}
	f.block = to
	f.pc = k
	li := f.info.liveIn[to.Index]
	for i := range f.regs {
		if f.regs[i] != nil && !li.has(i) {
			f.regs[i] = nil
		}
	}
}

// val evaluates an operand.
func (x *Exec) val(s *State, f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &FuncV{Fn: v}
	case *ssa.Builtin:
		return &FuncV{Bi: v}
	case *ssa.Global:
		return Ptr{Obj: x.globalID(v)}
	}
	r, ok := f.info.reg[v]
	if !ok {
		panic(unsup{"unknown operand " + v.String()})
	}
	rv := f.regs[r]
	if p, bad := rv.(poison); bad {
		panic(unsup{"poison: " + string(p)})
	}
	if rv == nil {
		panic(unsup{"dead register " + v.Name() + " in " + f.fn.String()})
	}
	return rv
}

func (x *Exec) term(s *State, f *Frame, v ssa.Value) *sym.Term {
	t, ok := x.val(s, f, v).(*sym.Term)
	if !ok {
		panic(unsup{fmt.Sprintf("scalar expected, got %T (%s)", x.val(s, f, v), v.Type())})
	}
	return t
}

func (x *Exec) constVal(v *ssa.Const) Value {
	t := v.Type()
	if v.Value == nil {
		return x.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(unsup{"type parameter constant"})
	}
	if w, _, ok := basicInfo(t); ok {
		c := constant.ToInt(v.Value)
		if i, exact := constant.Int64Val(c); exact {
			return x.c.BV(w, uint64(i)&wmask(w))
		}
		u, _ := constant.Uint64Val(c)
		return x.c.BV(w, u&wmask(w))
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return x.c.Bool(constant.BoolVal(v.Value))
	case constant.String:
		return concStr(constant.StringVal(v.Value))
	case constant.Float, constant.Int:
		d, _ := constant.Float64Val(v.Value)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			d = float64(float32(d))
		}
		return d
	}
	panic(unsup{"constant " + v.String()})
}

func wmask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func namedPath(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func (x *Exec) zero(t types.Type) Value {
	switch namedPath(t) {
	case "math/big.Int", "github.com/ericlagergren/decimal.Big":
		return x.c.IntC(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := basicInfo(t); ok {
			return x.c.BV(w, 0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.c.False
		case u.Info()&types.IsString != 0:
			return concStr("")
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = x.zero(u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		if u.Len() > 1<<20 {
			panic(unsup{"huge array"})
		}
		e := make([]Value, u.Len())
		if len(e) > 0 {
			z := x.zero(u.Elem())
			for i := range e {
				e[i] = z
			}
		}
		return &ArrayV{e}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return Ptr{}
	case *types.Tuple:
		vs := make([]Value, u.Len())
		for i := range vs {
			vs[i] = x.zero(u.At(i).Type())
		}
		return &Tuple{vs}
	}
	panic(unsup{"zero of " + t.String()})
}

// ---- globals & initialisers ----

func (x *Exec) globalID(g *ssa.Global) ObjID {
	id, ok := x.globals[g]
	if !ok {
		id = ObjID(-1 - len(x.globals))
		x.globals[g] = id
		x.globObj[id] = g
	}
	return id
}

func (x *Exec) ensureGlobal(s *State, id ObjID) {
	if id >= 0 {
		return
	}
	g := x.globObj[id]
	if g.Pkg != nil && !x.initDone[g.Pkg] {
		x.initPkg(g.Pkg)
	}
	if _, ok := x.base[id]; !ok {
		x.base[id] = &Obj{V: x.zero(g.Type().Underlying().(*types.Pointer).Elem())}
	}
}

func (x *Exec) initPkg(p *ssa.Package) {
	x.initDone[p] = true
	p.Build()
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			id := x.globalID(g)
			if _, ok := x.base[id]; !ok {
				func() {
					defer func() {
						if r := recover(); r != nil {
							x.base[id] = &Obj{V: poison("zero value of " + g.String())}
						}
					}()
					x.base[id] = &Obj{V: x.zero(g.Type().Underlying().(*types.Pointer).Elem())}
				}()
			}
		}
	}
	fn := p.Func("init")
	if fn == nil || skipInit[p.Pkg.Path()] {
		return
	}
	// nested, concrete run
	swl, sit, smode, sdl := x.wl, x.items, x.initMode, x.Deadline
	x.wl, x.items, x.initMode = nil, map[string]*wlItem{}, true
	defer func() { x.wl, x.items, x.initMode, x.Deadline = swl, sit, smode, sdl }()
	s := &State{id: x.newSID(), heap: map[ObjID]*Obj{}, known: map[int32]bool{}, names: map[string]int{}, model: sym.Model{}, dom: map[int32]*domain{}, multi: &sym.VarSet{}}
	x.pushFrame(s, fn, nil, nil, retTop, []int32{-1000 - int32(len(x.initDone))}, nil)
	ss := x.steps
	for x.runSlice(s) {
		if x.steps-ss > 20000000 {
			x.incomplete("initialiser of " + p.Pkg.Path() + " too long")
			return
		}
	}
}

// skipInit lists packages whose initialisers are irrelevant (globals stay zero).
var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/cpu": true, "reflect": true, "internal/godebug": true, "crypto/internal/fips140/check": true}

func (x *Exec) initFail(s *State, msg string) {
	// abandon the call in progress, poison the result in the outermost init frame
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "init:", msg, "at", s.where())
	}
	s.panick = nil
	depth := 1
	// a user-written init#k function is also skipped as a whole from its own frame
	for i := len(s.frames) - 1; i >= 1; i-- {
		if n := s.frames[i].fn.Name(); len(n) > 5 && n[:5] == "init#" {
			depth = i + 1
			break
		}
	}
	if len(s.frames) < depth {
		return
	}
	s.frames = s.frames[:depth]
	f := s.wtop()
	ins := f.block.Instrs[f.pc]
	switch i := ins.(type) {
	case *ssa.If:
		x.jump(s, f.block.Succs[1])
		return
	case *ssa.Store:
		if g, ok := i.Addr.(*ssa.Global); ok {
			x.base[x.globalID(g)] = &Obj{V: poison(msg)}
		}
	case *ssa.Jump, *ssa.Return:
		s.frames = nil
		return
	}
	if v, ok := ins.(ssa.Value); ok {
		f.regs[f.info.reg[v]] = poison(msg)
	}
	f.pc++
}

// ---- decisions ----

func (x *Exec) evalBool(m sym.Model, t *sym.Term) bool {
	if x.evLast == nil || !sameModel(x.evFor, m) {
		x.evFor = m
		x.evLast = sym.NewEvaluator(x.c, m)
	}
	return x.evLast.True(t)
}

func (x *Exec) evalTerm(m sym.Model, t *sym.Term) *big.Int {
	if x.evLast == nil || !sameModel(x.evFor, m) {
		x.evFor = m
		x.evLast = sym.NewEvaluator(x.c, m)
	}
	return x.evLast.Eval(t)
}

// feasible decides whether conj(s) && cond is satisfiable.
func (x *Exec) feasible(s *State, cond *sym.Term) (sym.Result, sym.Model) {
	if cond.IsFalse() {
		return sym.Unsat, nil
	}
	vs := x.c.VarsOf(cond).Clone()
	axs := x.relevantTo(append(append(make([]*sym.Term, 0, len(s.conj)+1), s.conj...), cond))
	in := make([]bool, len(s.conj)+len(axs))
	all := append(append(make([]*sym.Term, 0, len(s.conj)+len(axs)), s.conj...), axs...)
	for ch := true; ch; {
		ch = false
		for i, t := range all {
			if in[i] {
				continue
			}
			tv := x.c.VarsOf(t)
			if tv.Intersects(vs) {
				in[i] = true
				vs.Or(tv)
				ch = true
			}
		}
	}
	q := []*sym.Term{cond}
	ids := []int32{cond.ID}
	for i, t := range all {
		if in[i] {
			q = append(q, t)
			ids = append(ids, t.ID)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	ks := keyStr(ids)
	fr, ok := x.feasC[ks]
	if !ok {
		t0 := time.Now()
		fr.r, fr.m = x.inc.Check(q)
		if os.Getenv("VERIF_TRACE") != "" {
			fmt.Fprintf(os.Stderr, "feasible %v model=%v q=%d %.2fs at %s\n", fr.r, fr.m != nil, len(q), time.Since(t0).Seconds(), s.where())
		}
		if fr.r == sym.Sat {
			ev := sym.NewEvaluator(x.c, fr.m)
			for _, t := range q {
				if !ev.True(t) {
					fr.m = nil
					if os.Getenv("VERIF_TRACE") != "" {
						fmt.Fprintf(os.Stderr, "  model rejected by %.300s\n", t.String())
					}
					break
				}
			}
		}
		x.feasC[ks] = fr
	}
	if fr.r != sym.Sat {
		return fr.r, nil
	}
	if fr.m == nil {
		return sym.Sat, nil
	}
	m := sym.Model{}
	if s.model != nil {
		for k, v := range s.model {
			m[k] = v
		}
	} else if len(q) < len(s.conj)+1 {
		return sym.Sat, nil
	}
	for _, v := range x.c.Vars {
		if vs.Has(int32(x.c.VarIndex(v))) {
			if b, ok := fr.m[v]; ok {
				m[v] = b
			} else {
				delete(m, v)
			}
		}
	}
	return sym.Sat, m
}

// freshen makes the path's model satisfy axioms added since it was made.
func (x *Exec) freshen(s *State, cond *sym.Term) {
	if len(x.axioms) == 0 || s.model == nil {
		return
	}
	if s.axVars != nil && s.nax == len(x.axioms) && x.c.VarsOf(cond).Subset(s.axVars) && s.nconj == len(s.conj) {
		return
	}
	vs := x.c.VarsOf(cond).Clone()
	for _, t := range s.conj {
		vs.Or(x.c.VarsOf(t))
	}
	rel := x.relevant(vs)
	if s.axVars != nil {
		vs.Or(s.axVars)
	}
	s.axVars, s.nax, s.nconj = vs, len(x.axioms), len(s.conj)
	var bad []*sym.Term
	for k, t := range x.axioms {
		if rel[k] && !x.evalBool(s.model, t) {
			bad = append(bad, t)
		}
	}
	if len(bad) == 0 {
		return
	}
	r, m := x.feasible(s, x.c.AndN(bad...))
	if r == sym.Unsat {
		panic(pathEnd{})
	}
	s.model = m
}

func (x *Exec) decide(s *State, cond *sym.Term) bool {
	if cond.IsConst() {
		return cond.IsTrue()
	}
	if v, ok := s.known[cond.ID]; ok {
		return v
	}
	x.freshen(s, cond)
	nc := x.c.Not(cond)
	switch r, mt, mf := x.domCheck(s, cond); r {
	case 1, 2:
		s.known[cond.ID] = r == 1
		s.known[nc.ID] = r == 2
		return r == 1
	case 3:
		if s.enumN > 4000 {
			panic(unsup{"too many forks at one instruction"})
		}
		panic(forkSig{cond, mt, mf})
	}
	var mt, mf sym.Model
	rt, rf := sym.Unknown, sym.Unknown
	if s.model != nil {
		if x.evalBool(s.model, cond) {
			rt, mt = sym.Sat, s.model
		} else {
			rf, mf = sym.Sat, s.model
		}
	}
	if rt != sym.Sat {
		rt, mt = x.feasible(s, cond)
	}
	if rf != sym.Sat {
		if rt == sym.Unsat && s.model != nil {
			rf = sym.Sat
		} else {
			rf, mf = x.feasible(s, nc)
		}
	}
	if rt == sym.Unsat && rf == sym.Unsat {
		panic(pathEnd{})
	}
	if rt == sym.Unsat {
		s.known[cond.ID] = false
		s.known[nc.ID] = true
		return false
	}
	if rf == sym.Unsat {
		s.known[cond.ID] = true
		s.known[nc.ID] = false
		return true
	}
	if s.enumN > 4000 {
		panic(unsup{"too many forks at one instruction"})
	}
	panic(forkSig{cond, mt, mf})
}

// concretize forks over the possible values of t.
func (x *Exec) concretize(s *State, t *sym.Term) uint64 {
	if t.IsConst() {
		return t.C
	}
	x.conc++
	x.freshen(s, t)
	for n := 0; n < 5000; n++ {
		var cand uint64
		if s.model != nil {
			cand = x.evalTerm(s.model, t).Uint64()
		} else {
			// look for a decided value
			r, m := x.feasible(s, x.c.Eq(t, x.c.Var(x.freshName(s, "cz"), sym.KBV, t.W)))
			if r == sym.Unsat {
				panic(pathEnd{})
			}
			if m == nil {
				// whole-path query
				r, m, _ = x.c.Solve(append(append([]*sym.Term(nil), s.conj...), x.relevantTo(s.conj)...), 10*time.Second)
				if r == sym.Unsat {
					panic(pathEnd{})
				}
				if m == nil {
					panic(unsup{"cannot concretize"})
				}
			}
			s.model = m
			cand = x.evalTerm(m, t).Uint64()
		}
		if x.decide(s, x.c.Eq(t, x.c.BV(t.W, cand))) {
			return cand
		}
	}
	panic(unsup{"concretization limit"})
}

func sameModel(a, b sym.Model) bool {
	if a == nil || b == nil {
		return false
	}
	return mapPtr(a) == mapPtr(b)
}

// ---- panics & returns ----

func (x *Exec) unwind(s *State) bool {
	for {
		f := s.wtop()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			fv, _ := d.fn.(*FuncV)
			if fv == nil || fv.Fn == nil {
				continue
			}
			if it := x.lookupIntrinsic(fv.Fn); it != nil {
				sv := s.panick
				s.panick = nil
				it(x, s, &callCtx{fn: fv.Fn}, d.args)
				s.panick = sv
				continue
			}
			pre := append(x.fullKey(s), int32(len(f.defers)), -5)
			f.regs = append([]Value(nil), f.regs...)
			sv := s.panick
			x.pushFrame(s, fv.Fn, d.args, fv.Bind, retUnwind, pre, nil)
			s.top().unwinding(sv)
			s.panick = nil
			return true
		}
		switch f.mode {
		case retMarker:
			s.frames = s.frames[:len(s.frames)-1]
			s.panick = nil
			x.finishCall(s, x.c.True)
			return true
		case retTop:
			x.record(s, "panic", "no panic: "+showPanic(s.panick), nil)
			return false
		case retUnwind:
			s.frames = s.frames[:len(s.frames)-1]
			continue
		}
		s.frames = s.frames[:len(s.frames)-1]
	}
}

func showPanic(v Value) string {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	switch v := v.(type) {
	case *ErrV:
		return v.Msg
	case *Str:
		if v.B == nil {
			return v.S
		}
	}
	return "panic"
}

// unwinding remembers the in-flight panic in a deferred call's frame.
func (f *Frame) unwinding(v Value) { f.defers = nil; f.pv = v }

func (x *Exec) finishCall(s *State, v Value) {
	f := s.wtop()
	ins := f.block.Instrs[f.pc]
	if c, ok := ins.(*ssa.Call); ok {
		f.regs[f.info.reg[c]] = v
	}
	f.pc++
}

func (x *Exec) doReturn(s *State, v Value) bool {
	f := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	switch f.mode {
	case retTop:
		if !x.initMode {
			x.endCount++
			if len(x.Ends) < 64 {
				x.Ends = append(x.Ends, &EndState{append([]*sym.Term(nil), s.conj...), s.model, s.obs})
			}
		}
		return true
	case retTab:
		x.tabRes = v
		return true
	case retStore:
		x.finishCall(s, v)
	case retMarker:
		x.finishCall(s, x.c.False)
	case retDefer:
		// caller re-executes RunDefers
	case retUnwind:
		if f.pv != nil {
			s.panick = f.pv
			return true
		}
		// recovered: the deferring function returns
		c := s.wtop()
		if c.fn.Recover != nil {
			c.block = c.fn.Recover
			c.pc = 0
			return true
		}
		return x.doReturn(s, x.zeroResults(c.fn))
	}
	return true
}

func (x *Exec) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return &Tuple{}
	case 1:
		return x.zero(r.At(0).Type())
	}
	return x.zero(r)
}

// record adds an obligation: s.conj && extra must be unsatisfiable.
func (x *Exec) record(s *State, kind, label string, extra *sym.Term) {
	if extra != nil {
		x.freshen(s, extra)
	} else {
		x.freshen(s, x.c.True)
	}
	o := &Obligation{Label: label, Kind: kind, Where: s.where()}
	o.Conj = append(o.Conj, s.conj...)
	if extra != nil {
		o.Conj = append(o.Conj, extra)
	}
	o.Obs = s.obs
	o.Base, o.Extra = s.model, extra
	if s.model != nil && (extra == nil || x.evalBool(s.model, extra)) {
		o.Model = s.model
	}
	x.Oblig = append(x.Oblig, o)
}

func (x *Exec) assert(s *State, label string, cond *sym.Term) {
	x.Labels[label]++
	if cond.IsTrue() {
		x.trivial[label]++
		return
	}
	if v, ok := s.known[cond.ID]; ok && v {
		x.trivial[label]++
		return
	}
	x.record(s, "assert", label, x.c.Not(cond))
	if cond.IsFalse() {
		panic(pathEnd{})
	}
	// continue under the assumption that it holds
	if s.model != nil && !x.evalBool(s.model, cond) {
		r, m := x.feasible(s, cond)
		if r == sym.Unsat {
			panic(pathEnd{})
		}
		s.model = m
	}
	x.addConj(s, cond)
}

func posOf(fn *ssa.Function, p token.Pos) string {
	return fn.Prog.Fset.Position(p).String()
}
