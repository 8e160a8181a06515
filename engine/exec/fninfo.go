package exec

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// FnInfo caches the control-flow structure of a function.
type FnInfo struct {
	fn    *ssa.Function
	nregs int
	reg   map[ssa.Value]int
	// per block: nested loop ids (outermost first), position sequence
	loops  [][]int32 // loop ids containing the block
	seq    [][]int32 // sequence positions, len = len(loops)+1
	head   []int32   // loop id headed by this block or -1
	inLoop []map[int32]bool
	nloops int
	liveIn []bitset
	callLv sync.Map // *ssa.Call instr -> bitset (live after)
	kept   []bool
}

type bitset []uint64

func (b bitset) has(i int) bool { return b[i/64]>>(uint(i)%64)&1 != 0 }
func (b bitset) set(i int)      { b[i/64] |= 1 << (uint(i) % 64) }
func (b bitset) clr(i int)      { b[i/64] &^= 1 << (uint(i) % 64) }
func (b bitset) or(o bitset) bool {
	ch := false
	for i, w := range o {
		if n := b[i] | w; n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return ch
}
func (b bitset) clone() bitset { return append(bitset(nil), b...) }

var fnCache sync.Map
var buildMu sync.Mutex

func infoOf(fn *ssa.Function) *FnInfo {
	if v, ok := fnCache.Load(fn); ok {
		return v.(*FnInfo)
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	if v, ok := fnCache.Load(fn); ok {
		return v.(*FnInfo)
	}
	in := computeInfo(fn)
	fnCache.Store(fn, in)
	return in
}

func ensureBuilt(fn *ssa.Function) {
	// Blocks may be set while another goroutine is still building, so always
	// go through Build, which waits for it
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil && f.Pkg == nil {
		f = o
	}
	if f.Pkg != nil {
		f.Pkg.Build()
	}
}

func computeInfo(fn *ssa.Function) *FnInfo {
	in := &FnInfo{fn: fn, reg: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		in.reg[v] = in.nregs
		in.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	n := len(fn.Blocks)
	in.loops = make([][]int32, n)
	in.seq = make([][]int32, n)
	in.head = make([]int32, n)
	for i := range in.head {
		in.head[i] = -1
	}
	// weak topological order by recursive SCC decomposition
	all := make([]int, 0, n)
	for i := 0; i < n; i++ {
		all = append(all, i)
	}
	var rec func(nodes []int, loops []int32, seq []int32)
	rec = func(nodes []int, loops []int32, seq []int32) {
		sccs := sccOrder(fn, nodes)
		for pos, comp := range sccs {
			s := append(append([]int32(nil), seq...), int32(pos+1))
			if len(comp) == 1 {
				b := fn.Blocks[comp[0]]
				self := false
				for _, t := range b.Succs {
					if t == b {
						self = true
					}
				}
				if !self {
					in.loops[b.Index] = loops
					in.seq[b.Index] = s
					continue
				}
			}
			inComp := map[int]bool{}
			for _, i := range comp {
				inComp[i] = true
			}
			// head: entered from outside, lowest index
			h := -1
			for _, i := range comp {
				ext := i == 0
				for _, p := range fn.Blocks[i].Preds {
					if !inComp[p.Index] {
						ext = true
					}
				}
				if ext && (h < 0 || i < h) {
					h = i
				}
			}
			if h < 0 {
				h = comp[0]
			}
			id := int32(in.nloops)
			in.nloops++
			in.head[h] = id
			ls := append(append([]int32(nil), loops...), id)
			in.loops[h] = ls
			in.seq[h] = append(append([]int32(nil), s...), 0)
			var rest []int
			for _, i := range comp {
				if i != h {
					rest = append(rest, i)
				}
			}
			rec(rest, ls, s)
		}
	}
	rec(all, nil, nil)
	in.inLoop = make([]map[int32]bool, n)
	for i := range in.inLoop {
		m := map[int32]bool{}
		for _, l := range in.loops[i] {
			m[l] = true
		}
		in.inLoop[i] = m
	}
	in.liveness()
	return in
}

// sccOrder returns the SCCs of the induced subgraph in topological order.
func sccOrder(fn *ssa.Function, nodes []int) [][]int {
	in := map[int]bool{}
	for _, i := range nodes {
		in[i] = true
	}
	idx := map[int]int{}
	low := map[int]int{}
	on := map[int]bool{}
	var st []int
	var out [][]int
	c := 0
	var dfs func(v int)
	dfs = func(v int) {
		c++
		idx[v] = c
		low[v] = c
		st = append(st, v)
		on[v] = true
		for _, s := range fn.Blocks[v].Succs {
			w := s.Index
			if !in[w] {
				continue
			}
			if idx[w] == 0 {
				dfs(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if on[w] && idx[w] < low[v] {
				low[v] = idx[w]
			}
		}
		if low[v] == idx[v] {
			var comp []int
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				comp = append(comp, w)
				if w == v {
					break
				}
			}
			out = append(out, comp)
		}
	}
	for _, v := range nodes {
		if idx[v] == 0 {
			dfs(v)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (in *FnInfo) words() int { return (in.nregs + 63) / 64 }

func (in *FnInfo) liveness() {
	fn := in.fn
	n := len(fn.Blocks)
	w := in.words()
	use := make([]bitset, n)
	def := make([]bitset, n)
	phiOut := make([]bitset, n) // values used by successors' phis on the edge
	in.liveIn = make([]bitset, n)
	for i := range use {
		use[i] = make(bitset, w)
		def[i] = make(bitset, w)
		phiOut[i] = make(bitset, w)
		in.liveIn[i] = make(bitset, w)
	}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				for k, e := range p.Edges {
					if r, ok := in.reg[e]; ok {
						phiOut[b.Preds[k].Index].set(r)
					}
				}
				// the phi value itself is live-in (evaluated on the edge)
				def[b.Index].clr(in.reg[p])
				continue
			}
			ops = ins.Operands(ops[:0])
			for _, o := range ops {
				if *o == nil {
					continue
				}
				if r, ok := in.reg[*o]; ok && !def[b.Index].has(r) {
					use[b.Index].set(r)
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[b.Index].set(in.reg[v])
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			out := phiOut[i].clone()
			for _, s := range fn.Blocks[i].Succs {
				li := in.liveIn[s.Index].clone()
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					li.clr(in.reg[p])
				}
				out.or(li)
			}
			for k := range out {
				out[k] = out[k]&^def[i][k] | use[i][k]
			}
			if in.liveIn[i].or(out) {
				ch = true
			}
		}
		// phis of a block that are used in the block or live through count as live-in:
		// they are in use/def via ordinary operand scanning (def cleared above).
	}
	if fn.Recover != nil {
		// named results read in the recover block stay live everywhere
		for i := range in.liveIn {
			in.liveIn[i].or(in.liveIn[fn.Recover.Index])
		}
	}
}

// liveAfter computes the registers live after instruction index k of block b.
func (in *FnInfo) liveAfter(b *ssa.BasicBlock, k int) bitset {
	type ck struct {
		b *ssa.BasicBlock
		k int
	}
	if v, ok := in.callLv.Load(ck{b, k}); ok {
		return v.(bitset)
	}
	live := make(bitset, in.words())
	for _, s := range b.Succs {
		li := in.liveIn[s.Index].clone()
		for _, ins := range s.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			li.clr(in.reg[p])
		}
		live.or(li)
		for _, ins := range s.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for e, pr := range s.Preds {
				if pr == b {
					if r, ok := in.reg[p.Edges[e]]; ok {
						live.set(r)
					}
				}
			}
		}
	}
	var ops []*ssa.Value
	for i := len(b.Instrs) - 1; i > k; i-- {
		ins := b.Instrs[i]
		if v, ok := ins.(ssa.Value); ok {
			live.clr(in.reg[v])
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		ops = ins.Operands(ops[:0])
		for _, o := range ops {
			if *o == nil {
				continue
			}
			if r, ok := in.reg[*o]; ok {
				live.set(r)
			}
		}
	}
	if in.fn.Recover != nil {
		live.or(in.liveIn[in.fn.Recover.Index])
	}
	in.callLv.Store(ck{b, k}, live)
	return live
}

// ---- type helpers ----

func basicInfo(t types.Type) (w int, signed bool, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return
}

func isBool(t types.Type) bool {
	b, is := t.Underlying().(*types.Basic)
	return is && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, is := t.Underlying().(*types.Basic)
	return is && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, is := t.Underlying().(*types.Basic)
	return is && b.Info()&types.IsFloat != 0
}
