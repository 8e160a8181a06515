package exec

import (
	"fmt"
	"regexp/syntax"

	"verif/engine/sym"
)

// ReV is a compiled regular expression.
type ReV struct {
	src   string
	prog  *syntax.Prog
	names []string
	ncap  int
}

func compileRe(src string) *ReV {
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		panic(unsup{"regexp: " + err.Error()})
	}
	n := re.MaxCap()
	names := re.CapNames()
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(unsup{"regexp: " + err.Error()})
	}
	return &ReV{src, p, names, n}
}

// reRun matches by a backtracking search with leftmost-first semantics; every
// character test is a decision of the symbolic executor (it may fork).
func (x *Exec) reRun(s *State, re *ReV, b []*sym.Term) []int {
	return x.reRunFrom(s, re, b, 0)
}

func (x *Exec) reRunFrom(s *State, re *ReV, b []*sym.Term, from int) []int {
	for start := from; start <= len(b); start++ {
		cap := make([]int, 2*(re.ncap+1))
		for i := range cap {
			cap[i] = -1
		}
		visited := map[[2]int]bool{}
		if m := x.reTry(s, re, b, start, cap, visited); m != nil {
			return m
		}
		if re.prog.StartCond()&syntax.EmptyBeginText != 0 {
			return nil
		}
	}
	return nil
}

func (x *Exec) reTry(s *State, re *ReV, b []*sym.Term, start int, cap []int, visited map[[2]int]bool) []int {
	type job struct {
		pc, pos int
		cap     []int
	}
	stack := []job{{re.prog.Start, start, cap}}
	cap[0] = start
	for len(stack) > 0 {
		j := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		pc, pos, cp := j.pc, j.pos, j.cap
	run:
		for {
			in := &re.prog.Inst[pc]
			k := [2]int{pc, pos}
			if visited[k] {
				break
			}
			visited[k] = true
			switch in.Op {
			case syntax.InstFail:
				break run
			case syntax.InstAlt, syntax.InstAltMatch:
				stack = append(stack, job{int(in.Arg), pos, append([]int(nil), cp...)})
				pc = int(in.Out)
			case syntax.InstCapture:
				if int(in.Arg) < len(cp) {
					cp = append([]int(nil), cp...)
					cp[in.Arg] = pos
				}
				pc = int(in.Out)
			case syntax.InstEmptyWidth:
				ok := true
				e := syntax.EmptyOp(in.Arg)
				if e&syntax.EmptyBeginText != 0 && pos != 0 {
					ok = false
				}
				if e&syntax.EmptyEndText != 0 && pos != len(b) {
					ok = false
				}
				if e&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
					panic(unsup{"regexp: empty-width assertion"})
				}
				if !ok {
					break run
				}
				pc = int(in.Out)
			case syntax.InstNop:
				pc = int(in.Out)
			case syntax.InstMatch:
				cp = append([]int(nil), cp...)
				cp[1] = pos
				return cp
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if pos >= len(b) {
					break run
				}
				ok, n := x.reRune(s, in, b[pos:])
				if !ok {
					break run
				}
				pos += n
				pc = int(in.Out)
			default:
				panic(unsup{fmt.Sprintf("regexp op %v", in.Op)})
			}
		}
	}
	return nil
}

// reRune tests one character. ASCII classes are decided on the byte itself.
func (x *Exec) reRune(s *State, in *syntax.Inst, b []*sym.Term) (bool, int) {
	c := x.c
	asciiOnly := true // no rune >= 0x80 can match
	switch in.Op {
	case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		asciiOnly = false
	default:
		if len(in.Rune) == 1 {
			if in.Rune[0] >= 0x80 || syntax.Flags(in.Arg)&syntax.FoldCase != 0 && !in.MatchRune('!') && foldsOut(in.Rune[0]) {
				asciiOnly = false
			}
		} else {
			for _, r := range in.Rune {
				if r >= 0x80 {
					asciiOnly = false
				}
			}
		}
	}
	t := b[0]
	cond := c.False
	tab := make([]uint64, 256)
	for i := 0; i < 128; i++ {
		if in.MatchRune(rune(i)) {
			tab[i] = 1
		}
	}
	_ = tab
	// build as union of ranges
	for i := 0; i < 128; {
		if tab[i] == 0 {
			i++
			continue
		}
		j := i
		for j < 128 && tab[j] == 1 {
			j++
		}
		cond = c.Or(cond, c.And(c.Ule(c.BV(8, uint64(i)), t), c.Ule(t, c.BV(8, uint64(j-1)))))
		i = j
	}
	if asciiOnly {
		return x.decide(s, cond), 1
	}
	if x.decide(s, cond) {
		return true, 1
	}
	if x.decide(s, c.Ult(t, c.BV(8, 0x80))) {
		return false, 1
	}
	if len(b) > 4 {
		b = b[:4]
	}
	r, n := x.decodeRune(s, b)
	// membership of the non-ASCII rune
	rc := c.False
	switch in.Op {
	case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		rc = c.True
	default:
		rs := in.Rune
		if len(rs) == 1 {
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				for _, q := range foldOrbit(rs[0]) {
					rc = c.Or(rc, c.Eq(r, c.BV(32, uint64(q))))
				}
			} else {
				rc = c.Eq(r, c.BV(32, uint64(rs[0])))
			}
		} else {
			for i := 0; i+1 < len(rs); i += 2 {
				rc = c.Or(rc, c.And(c.Ule(c.BV(32, uint64(rs[i])), r), c.Ule(r, c.BV(32, uint64(rs[i+1])))))
			}
		}
	}
	return x.decide(s, rc), n
}

func foldsOut(r rune) bool {
	for _, q := range foldOrbit(r) {
		if q >= 0x80 {
			return true
		}
	}
	return false
}

// reAll lists up to n successive matches (all of them if n < 0).
func (x *Exec) reAll(s *State, re *ReV, b []*sym.Term, n int) [][]int {
	var o [][]int
	for pos, prev := 0, -1; pos <= len(b) && (n < 0 || len(o) < n); {
		r := x.reRunFrom(s, re, b, pos)
		if r == nil {
			break
		}
		if r[1] == pos { // empty match
			if r[0] != prev {
				o = append(o, r)
			}
			w := 1
			if pos < len(b) && !x.decide(s, x.c.Ult(b[pos], x.c.BV(8, 0x80))) {
				_, w = x.decodeRune(s, b[pos:min(len(b), pos+4)])
			}
			pos += w
		} else {
			o = append(o, r)
			pos = r[1]
		}
		prev = r[1]
	}
	return o
}

func init() {
	m := moreIntrinsics
	count := func(v Value) int {
		t := v.(*sym.Term)
		if !t.IsConst() {
			panic(unsup{"regexp: symbolic match limit"})
		}
		return int(int64(t.C))
	}
	subs := func(x *Exec, st *Str, r []int) []Value {
		var vs []Value
		for i := 0; i < len(r); i += 2 {
			if r[i] < 0 || r[i+1] < 0 {
				vs = append(vs, concStr(""))
			} else {
				vs = append(vs, x.subStr(st, r[i], r[i+1]))
			}
		}
		return vs
	}
	const rp = "(*regexp.Regexp)."
	comp := func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return Ptr{Obj: x.newObj(s, compileRe(argStr(a[0])), 0)}
	}
	m["regexp.MustCompile"] = comp
	m["regexp.Compile"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return &Tuple{[]Value{comp(x, s, c, a), nilErr()}}
	}
	get := func(x *Exec, s *State, v Value) *ReV {
		re, ok := x.load(s, x.ptrOf(s, v)).(*ReV)
		if !ok {
			panic(unsup{"regexp object"})
		}
		return re
	}
	m[rp+"String"] = func(x *Exec, s *State, c *callCtx, a []Value) Value { return concStr(get(x, s, a[0]).src) }
	m[rp+"MatchString"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return x.c.Bool(x.reRun(s, get(x, s, a[0]), x.bytes(a[1].(*Str))) != nil)
	}
	m[rp+"Match"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return x.c.Bool(x.reRun(s, get(x, s, a[0]), x.sliceBytes(s, a[1].(SliceV))) != nil)
	}
	m["regexp.MatchString"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return &Tuple{[]Value{x.c.Bool(x.reRun(s, compileRe(argStr(a[0])), x.bytes(a[1].(*Str))) != nil), nilErr()}}
	}
	m[rp+"FindStringSubmatch"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		re := get(x, s, a[0])
		st := a[1].(*Str)
		r := x.reRun(s, re, x.bytes(st))
		if r == nil {
			return SliceV{}
		}
		var vs []Value
		for i := 0; i < len(r); i += 2 {
			if r[i] < 0 || r[i+1] < 0 {
				vs = append(vs, concStr(""))
			} else {
				vs = append(vs, x.subStr(st, r[i], r[i+1]))
			}
		}
		return x.newSlice(s, vs)
	}
	m[rp+"FindAllStringSubmatch"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		st := a[1].(*Str)
		var vs []Value
		for _, r := range x.reAll(s, get(x, s, a[0]), x.bytes(st), count(a[2])) {
			vs = append(vs, x.newSlice(s, subs(x, st, r)))
		}
		if vs == nil {
			return SliceV{}
		}
		return x.newSlice(s, vs)
	}
	m[rp+"FindAllString"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		st := a[1].(*Str)
		var vs []Value
		for _, r := range x.reAll(s, get(x, s, a[0]), x.bytes(st), count(a[2])) {
			vs = append(vs, x.subStr(st, r[0], r[1]))
		}
		if vs == nil {
			return SliceV{}
		}
		return x.newSlice(s, vs)
	}
	intSlice := func(x *Exec, s *State, r []int) Value {
		if r == nil {
			return SliceV{}
		}
		var vs []Value
		for _, i := range r {
			vs = append(vs, x.c.BV(64, uint64(int64(i))))
		}
		return x.newSlice(s, vs)
	}
	m[rp+"FindStringIndex"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		r := x.reRun(s, get(x, s, a[0]), x.bytes(a[1].(*Str)))
		if r != nil {
			r = r[:2]
		}
		return intSlice(x, s, r)
	}
	m[rp+"FindStringSubmatchIndex"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return intSlice(x, s, x.reRun(s, get(x, s, a[0]), x.bytes(a[1].(*Str))))
	}
	m[rp+"FindString"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		st := a[1].(*Str)
		r := x.reRun(s, get(x, s, a[0]), x.bytes(st))
		if r == nil {
			return concStr("")
		}
		return x.subStr(st, r[0], r[1])
	}
	m[rp+"SubexpNames"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		var vs []Value
		for _, n := range get(x, s, a[0]).names {
			vs = append(vs, concStr(n))
		}
		return x.newSlice(s, vs)
	}
	m[rp+"NumSubexp"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return x.c.BV(64, uint64(get(x, s, a[0]).ncap))
	}
	m[rp+"SubexpIndex"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		n := argStr(a[1])
		for i, q := range get(x, s, a[0]).names {
			if n != "" && q == n {
				return x.c.BV(64, uint64(i))
			}
		}
		return x.c.BV(64, ^uint64(0))
	}
}
