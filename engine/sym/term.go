// Package sym: hash-consed terms over Bool, fixed-width bit-vectors (<=64) and
// mathematical integers, with a normalising constructor layer.
package sym

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
	"sync"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KInt
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd // n-ary, linear normal form
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OXor // n-ary
	OShl
	OLshr
	OAshr
	OConcat // msb first
	OExtract
	OSext
	OUlt
	OSlt
	OTbl
	OIAdd
	OIMul
	OIQuo // truncated
	OIRem // truncated
	OILt
	OIFromU
	OIFromS
	OIToBV
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "ite", "bvadd", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "concat", "extract", "sext", "bvult", "bvslt", "tbl", "iadd", "imul", "iquo", "irem", "ilt", "fromu", "froms", "tobv"}

type Term struct {
	ID   int32
	Op   Op
	K    Kind
	W    int
	A    []*Term
	C    uint64
	B    *big.Int
	Name string
	Tab  []uint64 // for OTbl (A[0] is the root)
	Orig *Term    // OTbl: structural form (if any) used when printing

	root     *Term
	tab      []uint64
	ulo, uhi uint64
	ilo, ihi *big.Int
	vars     *VarSet
	Signed   bool // var hint for integer encoding
}

type key struct {
	op      Op
	k       Kind
	w       int
	a, b, d int32
	c       uint64
	s       string
}

type Ctx struct {
	Mu    sync.Mutex // guards term construction once solving is parallel
	tab   map[key]*Term
	tabs  map[string]int
	tabBuf []byte
	next  int32
	True  *Term
	False *Term
	Vars  []*Term
	varIx map[string]*Term
	fresh int
	NoTab bool // disable table folding of non-structural ops (debug)
}

const maxRootW = 11

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}, tabs: map[string]int{}, varIx: map[string]*Term{}}
	c.False = c.intern(key{op: OConst, k: KBool, c: 0}, func(t *Term) {})
	c.True = c.intern(key{op: OConst, k: KBool, c: 1}, func(t *Term) { t.C = 1 })
	return c
}

func (c *Ctx) intern(k key, init func(t *Term)) *Term {
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{ID: c.next, Op: k.op, K: k.k, W: k.w, C: k.c}
	c.next++
	init(t)
	c.finish(t)
	c.tab[k] = t
	return t
}

func (c *Ctx) NumTerms() int { return int(c.next) }

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.K == KBool && t.C == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.K == KBool && t.C == 0 }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

// finish computes cached attributes.
func (c *Ctx) finish(t *Term) {
	// root
	if t.K != KInt {
		switch {
		case t.Op == OConst:
		case t.Op == OVar:
			if t.K == KBool || t.W <= maxRootW {
				t.root = t
			}
		case t.Op == OTbl:
			t.root = t.A[0]
			t.tab = t.Tab
		default:
			var r *Term
			ok := true
			for _, a := range t.A {
				if a.IsConst() {
					continue
				}
				if a.K == KInt || a.root == nil || (r != nil && r != a.root) {
					ok = false
					break
				}
				r = a.root
			}
			if ok && r != nil {
				t.root = r
			} else if t.K == KBool || t.W <= maxRootW {
				t.root = t
			}
		}
	}
	switch t.K {
	case KBV:
		c.bvRange(t)
	case KInt:
		c.intRange(t)
	}
}

func rootW(r *Term) int {
	if r.K == KBool {
		return 1
	}
	return r.W
}

// table of t as a function of t.root (t.root must be non-nil).
func (c *Ctx) table(t *Term) []uint64 {
	if t.tab != nil {
		return t.tab
	}
	n := 1 << uint(rootW(t.root))
	tb := make([]uint64, n)
	if t == t.root {
		for i := range tb {
			tb[i] = uint64(i)
		}
		t.tab = tb
		return tb
	}
	args := make([][]uint64, len(t.A))
	for i, a := range t.A {
		if !a.IsConst() {
			args[i] = c.table(a)
		}
	}
	vals := make([]uint64, len(t.A))
	for x := 0; x < n; x++ {
		for i, a := range t.A {
			if args[i] != nil {
				vals[i] = args[i][x]
			} else {
				vals[i] = a.C
			}
		}
		tb[x] = evalOp(t, vals)
	}
	t.tab = tb
	return tb
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp evaluates BV/Bool op on concrete argument values.
func evalOp(t *Term, v []uint64) uint64 {
	m := mask(t.W)
	switch t.Op {
	case ONot:
		return 1 - v[0]
	case OAnd:
		for _, x := range v {
			if x == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, x := range v {
			if x != 0 {
				return 1
			}
		}
		return 0
	case OEq:
		return b2u(v[0] == v[1])
	case OIte:
		if v[0] != 0 {
			return v[1]
		}
		return v[2]
	case OAdd:
		var s uint64
		for _, x := range v {
			s += x
		}
		return s & m
	case OMul:
		return (v[0] * v[1]) & m
	case OUDiv:
		if v[1] == 0 {
			return m
		}
		return v[0] / v[1]
	case OURem:
		if v[1] == 0 {
			return v[0]
		}
		return v[0] % v[1]
	case OSDiv:
		a, b := sx(v[0], t.W), sx(v[1], t.W)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sx(v[0], t.W), sx(v[1], t.W)
		if b == 0 {
			return v[0]
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return v[0] & v[1]
	case OBOr:
		return v[0] | v[1]
	case OXor:
		var s uint64
		for _, x := range v {
			s ^= x
		}
		return s & m
	case OShl:
		if v[1] >= uint64(t.W) {
			return 0
		}
		return (v[0] << v[1]) & m
	case OLshr:
		if v[1] >= uint64(t.W) {
			return 0
		}
		return v[0] >> v[1]
	case OAshr:
		s := v[1]
		if s >= uint64(t.W) {
			s = uint64(t.W - 1)
		}
		return uint64(sx(v[0], t.W)>>s) & m
	case OConcat:
		var s uint64
		for i, x := range v {
			s = s<<uint(t.A[i].W) | x
		}
		return s & m
	case OExtract:
		return (v[0] >> t.C) & m
	case OSext:
		return uint64(sx(v[0], t.A[0].W)) & m
	case OUlt:
		return b2u(v[0] < v[1])
	case OSlt:
		w := t.A[0].W
		return b2u(sx(v[0], w) < sx(v[1], w))
	case OTbl:
		return t.Tab[v[0]]
	}
	panic("evalOp " + opNames[t.Op])
}

func (c *Ctx) bvRange(t *Term) {
	m := mask(t.W)
	t.ulo, t.uhi = 0, m
	switch t.Op {
	case OConst:
		t.ulo, t.uhi = t.C, t.C
		return
	case OVar:
		return
	case OTbl:
		lo, hi := ^uint64(0), uint64(0)
		for _, x := range t.Tab {
			if x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
		}
		t.ulo, t.uhi = lo, hi
		return
	case OIte:
		t.ulo = min(t.A[1].ulo, t.A[2].ulo)
		t.uhi = max(t.A[1].uhi, t.A[2].uhi)
	case OAdd:
		var lo, hi uint64
		for _, a := range t.A {
			var cr uint64
			lo, cr = bits.Add64(lo, a.ulo, 0)
			_ = cr
			hi, cr = bits.Add64(hi, a.uhi, 0)
			if cr != 0 || hi > m {
				return
			}
		}
		t.ulo, t.uhi = lo, hi
	case OMul:
		h, l := bits.Mul64(t.A[0].uhi, t.A[1].uhi)
		if h != 0 || l > m {
			return
		}
		t.ulo, t.uhi = t.A[0].ulo*t.A[1].ulo, l
	case OUDiv:
		if t.A[1].ulo > 0 {
			t.ulo, t.uhi = t.A[0].ulo/t.A[1].uhi, t.A[0].uhi/t.A[1].ulo
		}
	case OURem:
		if t.A[1].ulo > 0 {
			t.ulo = 0
			t.uhi = min(t.A[0].uhi, t.A[1].uhi-1)
		}
	case OBAnd:
		t.uhi = min(t.A[0].uhi, t.A[1].uhi)
	case OBOr:
		t.ulo = max(t.A[0].ulo, t.A[1].ulo)
		hb := bits.Len64(t.A[0].uhi | t.A[1].uhi)
		t.uhi = mask(hb)
	case OXor:
		var o uint64
		for _, a := range t.A {
			o |= a.uhi
		}
		t.uhi = mask(bits.Len64(o)) & m
	case OLshr:
		t.uhi = t.A[0].uhi
		if t.A[1].IsConst() {
			if t.A[1].C >= uint64(t.W) {
				t.uhi = 0
			} else {
				t.ulo, t.uhi = t.A[0].ulo>>t.A[1].C, t.A[0].uhi>>t.A[1].C
			}
		}
	case OConcat:
		var lo, hi uint64
		for _, a := range t.A {
			lo = lo<<uint(a.W) | a.ulo
			hi = hi<<uint(a.W) | a.uhi
		}
		t.ulo, t.uhi = lo, hi
	case OExtract:
		// upper part of the range only if no truncation
		if t.C == 0 && t.A[0].uhi <= m {
			t.ulo, t.uhi = t.A[0].ulo, t.A[0].uhi
		} else if a := t.A[0]; (a.uhi >> t.C) <= m {
			t.ulo, t.uhi = a.ulo>>t.C, a.uhi>>t.C
		}
	case OSext:
		if t.A[0].uhi < uint64(1)<<uint(t.A[0].W-1) {
			t.ulo, t.uhi = t.A[0].ulo, t.A[0].uhi
		}
	case OIToBV:
		a := t.A[0]
		if a.ilo != nil && a.ihi != nil && a.ilo.Sign() >= 0 && a.ihi.IsUint64() && a.ihi.Uint64() <= m {
			t.ulo, t.uhi = a.ilo.Uint64(), a.ihi.Uint64()
		}
	}
}

func (t *Term) URange() (uint64, uint64) { return t.ulo, t.uhi }

// SRange returns a signed interval.
func (t *Term) SRange() (int64, int64) {
	top := uint64(1) << uint(t.W-1)
	if t.uhi < top {
		return int64(t.ulo), int64(t.uhi)
	}
	if t.ulo >= top {
		return sx(t.ulo, t.W), sx(t.uhi, t.W)
	}
	switch t.Op {
	case OSext:
		return t.A[0].SRange()
	case OIte:
		l1, h1 := t.A[1].SRange()
		l2, h2 := t.A[2].SRange()
		return min(l1, l2), max(h1, h2)
	case OTbl:
		lo, hi := int64(1<<62), int64(-1<<62)
		lo = sx(top-1, t.W)
		hi = sx(top, t.W)
		for _, x := range t.Tab {
			v := sx(x, t.W)
			lo = min(lo, v)
			hi = max(hi, v)
		}
		return lo, hi
	}
	return sx(top, t.W), sx(top-1, t.W)
}

var bigOne = big.NewInt(1)

func (c *Ctx) intRange(t *Term) {
	switch t.Op {
	case OConst:
		t.ilo, t.ihi = t.B, t.B
	case OVar: // set by creator
	case OIte:
		a, b := t.A[1], t.A[2]
		if a.ilo != nil && b.ilo != nil {
			t.ilo = bmin(a.ilo, b.ilo)
		}
		if a.ihi != nil && b.ihi != nil {
			t.ihi = bmax(a.ihi, b.ihi)
		}
	case OIAdd:
		lo, hi := new(big.Int), new(big.Int)
		for _, a := range t.A {
			if lo != nil && a.ilo != nil {
				lo = new(big.Int).Add(lo, a.ilo)
			} else {
				lo = nil
			}
			if hi != nil && a.ihi != nil {
				hi = new(big.Int).Add(hi, a.ihi)
			} else {
				hi = nil
			}
		}
		t.ilo, t.ihi = lo, hi
	case OIMul:
		a, b := t.A[0], t.A[1]
		if a.ilo != nil && a.ihi != nil && b.ilo != nil && b.ihi != nil {
			ps := []*big.Int{new(big.Int).Mul(a.ilo, b.ilo), new(big.Int).Mul(a.ilo, b.ihi), new(big.Int).Mul(a.ihi, b.ilo), new(big.Int).Mul(a.ihi, b.ihi)}
			lo, hi := ps[0], ps[0]
			for _, p := range ps {
				lo = bmin(lo, p)
				hi = bmax(hi, p)
			}
			t.ilo, t.ihi = lo, hi
		}
	case OIQuo:
		a, b := t.A[0], t.A[1]
		if a.ilo != nil && a.ihi != nil && b.ilo != nil && b.ihi != nil && (b.ilo.Sign() > 0 || b.ihi.Sign() < 0) {
			ps := []*big.Int{new(big.Int).Quo(a.ilo, b.ilo), new(big.Int).Quo(a.ilo, b.ihi), new(big.Int).Quo(a.ihi, b.ilo), new(big.Int).Quo(a.ihi, b.ihi)}
			if a.ilo.Sign() <= 0 && a.ihi.Sign() >= 0 {
				ps = append(ps, new(big.Int))
			}
			lo, hi := ps[0], ps[0]
			for _, p := range ps {
				lo = bmin(lo, p)
				hi = bmax(hi, p)
			}
			t.ilo, t.ihi = lo, hi
		} else if a.ilo != nil && a.ihi != nil {
			m := bmax(new(big.Int).Abs(a.ilo), new(big.Int).Abs(a.ihi))
			t.ilo, t.ihi = new(big.Int).Neg(m), m
			if a.ilo.Sign() >= 0 && b.ilo != nil && b.ilo.Sign() >= 0 {
				t.ilo = new(big.Int)
			}
		}
	case OIRem:
		a, b := t.A[0], t.A[1]
		if b.ilo != nil && b.ihi != nil {
			m := bmax(new(big.Int).Abs(b.ilo), new(big.Int).Abs(b.ihi))
			m = new(big.Int).Sub(m, bigOne)
			if m.Sign() < 0 {
				m = new(big.Int)
			}
			if a.ilo != nil && a.ihi != nil {
				m = bmin(m, bmax(new(big.Int).Abs(a.ilo), new(big.Int).Abs(a.ihi)))
			}
			t.ilo, t.ihi = new(big.Int).Neg(m), m
			if a.ilo != nil && a.ilo.Sign() >= 0 {
				t.ilo = new(big.Int)
			}
			if a.ihi != nil && a.ihi.Sign() <= 0 {
				t.ihi = new(big.Int)
			}
		}
	case OIFromU:
		t.ilo, t.ihi = new(big.Int).SetUint64(t.A[0].ulo), new(big.Int).SetUint64(t.A[0].uhi)
	case OIFromS:
		l, h := t.A[0].SRange()
		t.ilo, t.ihi = big.NewInt(l), big.NewInt(h)
	}
}

func (t *Term) IRange() (*big.Int, *big.Int) { return t.ilo, t.ihi }

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

// ---------- leaves

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) BV(w int, v uint64) *Term {
	v &= mask(w)
	return c.intern(key{op: OConst, k: KBV, w: w, c: v}, func(t *Term) {})
}

func (c *Ctx) Int(b *big.Int) *Term {
	return c.intern(key{op: OConst, k: KInt, s: b.String()}, func(t *Term) { t.B = new(big.Int).Set(b) })
}
func (c *Ctx) IntC(v int64) *Term { return c.Int(big.NewInt(v)) }

func (c *Ctx) Var(name string, k Kind, w int) *Term {
	if t, ok := c.varIx[name]; ok {
		return t
	}
	t := c.intern(key{op: OVar, k: k, w: w, s: name}, func(t *Term) { t.Name = name })
	c.varIx[name] = t
	c.Vars = append(c.Vars, t)
	return t
}

func (c *Ctx) IntVar(name string, lo, hi *big.Int) *Term {
	t := c.Var(name, KInt, 0)
	t.ilo, t.ihi = lo, hi
	return t
}

func (c *Ctx) Fresh(prefix string) string {
	c.fresh++
	return fmt.Sprintf("%s!%d", prefix, c.fresh)
}

// raw interning of an application
func (c *Ctx) app(op Op, k Kind, w int, cst uint64, args ...*Term) *Term {
	kk := key{op: op, k: k, w: w, c: cst, a: -1, b: -1, d: -1}
	if len(args) <= 3 {
		for i, a := range args {
			switch i {
			case 0:
				kk.a = a.ID
			case 1:
				kk.b = a.ID
			case 2:
				kk.d = a.ID
			}
		}
	} else {
		buf := make([]byte, 4*len(args))
		for i, a := range args {
			binary.LittleEndian.PutUint32(buf[4*i:], uint32(a.ID))
		}
		kk.s = string(buf)
	}
	return c.intern(kk, func(t *Term) { t.A = args })
}

func (c *Ctx) tabID(tb []uint64) int {
	n := 8 * len(tb)
	if cap(c.tabBuf) < n {
		c.tabBuf = make([]byte, n)
	}
	buf := c.tabBuf[:n]
	for i, x := range tb {
		binary.LittleEndian.PutUint64(buf[8*i:], x)
	}
	if id, ok := c.tabs[string(buf)]; ok {
		return id
	}
	id := len(c.tabs)
	c.tabs[string(buf)] = id
	return id
}

// MkTbl builds the term tab[root] (BV of width w, or Bool when k==KBool).
func (c *Ctx) MkTbl(root *Term, tab []uint64, k Kind, w int, orig *Term) *Term {
	n := len(tab)
	if root.IsConst() {
		if k == KBool {
			return c.Bool(tab[root.C] != 0)
		}
		return c.BV(w, tab[root.C])
	}
	// compose when root is itself a function of another root
	if root.root != root && root.root != nil {
		rt := c.table(root)
		nt := make([]uint64, len(rt))
		for i, x := range rt {
			nt[i] = tab[x]
		}
		return c.MkTbl(root.root, nt, k, w, orig)
	}
	constant := true
	for i := 1; i < n; i++ {
		if tab[i] != tab[0] {
			constant = false
			break
		}
	}
	if constant {
		if k == KBool {
			return c.Bool(tab[0] != 0)
		}
		return c.BV(w, tab[0])
	}
	if k == KBool && root.K == KBool { // non constant over bool
		if tab[1] == 1 {
			return root
		}
		return c.rawNot(root)
	}
	if root.K == KBool && k == KBV {
		// ite(root, tab[1], tab[0])
		return c.app(OIte, KBV, w, 0, root, c.BV(w, tab[1]), c.BV(w, tab[0]))
	}
	if k == KBV && root.K == KBV {
		rw := root.W
		aff := true
		var d [maxRootW]uint64
		for i := 0; i < rw; i++ {
			d[i] = tab[0] ^ tab[1<<uint(i)]
		}
		for x := 0; x < n && aff; x++ {
			v := tab[0]
			for i := 0; i < rw; i++ {
				if x>>uint(i)&1 != 0 {
					v ^= d[i]
				}
			}
			aff = v == tab[x]
		}
		if aff {
			// simple: every output bit depends on at most one input bit?
			parts := make([]*Term, 0, w)
			for j := w - 1; j >= 0; j-- {
				var xs []*Term
				if tab[0]>>uint(j)&1 != 0 {
					xs = append(xs, c.BV(1, 1))
				}
				for i := 0; i < rw; i++ {
					if d[i]>>uint(j)&1 != 0 {
						xs = append(xs, c.Extract(root, i, i))
					}
				}
				if len(xs) == 0 {
					parts = append(parts, c.BV(1, 0))
				} else {
					parts = append(parts, c.Xor(xs...))
				}
			}
			return c.Concat(parts...)
		}
	}
	id := c.tabID(tab)
	kk := key{op: OTbl, k: k, w: w, a: root.ID, b: int32(id), d: -2}
	return c.intern(kk, func(t *Term) {
		t.A = []*Term{root}
		t.Tab = append([]uint64(nil), tab...)
		t.Orig = orig
	})
}

// fold applies table folding to a freshly built structural term.
func (c *Ctx) fold(t *Term) *Term {
	if t.Op == OConst || t.Op == OVar || t.Op == OTbl || t.root == nil || t.root == t || t.K == KInt {
		return t
	}
	switch t.Op {
	case OExtract, OConcat, ONot, OSext:
		if t.Op == ONot && t.A[0].Op != OTbl {
			if t.root.K == KBool {
				return t
			}
		}
		// structural forms are already canonical unless they sit on a table
		hasTbl := false
		for _, a := range t.A {
			if a.Op == OTbl {
				hasTbl = true
			}
		}
		if !hasTbl && t.Op != ONot {
			return t
		}
	case OXor:
		// xor of root bits is affine: keep structural
		hasTbl := false
		for _, a := range t.A {
			if a.Op == OTbl {
				hasTbl = true
			}
		}
		if !hasTbl {
			return t
		}
	case OIte:
		if t.root.K == KBool && t.A[1].IsConst() && t.A[2].IsConst() {
			return t
		}
	}
	return c.MkTbl(t.root, c.table(t), t.K, t.W, t)
}

// Select builds tab[idx] where tab is constant.
func (c *Ctx) SelectConst(tab []uint64, idx *Term, w int) *Term {
	if idx.IsConst() {
		return c.BV(w, tab[idx.C])
	}
	if _, hi := idx.URange(); idx.root == nil && hi < 1<<maxRootW {
		n := 1
		for hi>>uint(n) != 0 {
			n++
		}
		idx = c.Extract(idx, n-1, 0)
		if idx.IsConst() {
			return c.BV(w, tab[idx.C])
		}
	}
	if idx.root != nil {
		it := c.table(idx)
		nt := make([]uint64, len(it))
		for i, x := range it {
			if x < uint64(len(tab)) {
				nt[i] = tab[x]
			}
		}
		return c.MkTbl(idx.root, nt, KBV, w, nil)
	}
	_, hi := idx.URange()
	n := len(tab)
	if hi < uint64(n) {
		n = int(hi) + 1
	}
	// affine over GF(2)? (CRC tables)
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	if 1<<uint(k) <= len(tab) && k <= 16 {
		n2 := 1 << uint(k)
		aff := true
		d := make([]uint64, k)
		for i := range d {
			d[i] = tab[0] ^ tab[1<<uint(i)]
		}
		for x := 0; x < n2 && aff; x++ {
			v := tab[0]
			for i := 0; i < k; i++ {
				if x>>uint(i)&1 != 0 {
					v ^= d[i]
				}
			}
			aff = v == tab[x]
		}
		if aff && n2 > 2 {
			parts := make([]*Term, 0, w)
			for j := w - 1; j >= 0; j-- {
				xs := []*Term{c.BV(1, tab[0]>>uint(j)&1)}
				for i := 0; i < k; i++ {
					if d[i]>>uint(j)&1 != 0 {
						xs = append(xs, c.Extract(idx, i, i))
					}
				}
				parts = append(parts, c.Xor(xs...))
			}
			return c.Concat(parts...)
		}
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		same := true
		for i := lo + 1; i < hi; i++ {
			if tab[i] != tab[lo] {
				same = false
				break
			}
		}
		if same {
			return c.BV(w, tab[lo])
		}
		mid := (lo + hi) / 2
		return c.Ite(c.Ult(idx, c.BV(idx.W, uint64(mid))), rec(lo, mid), rec(mid, hi))
	}
	return rec(0, n)
}

func (c *Ctx) rawNot(a *Term) *Term {
	if a.Op == ONot {
		return a.A[0]
	}
	return c.app(ONot, KBool, 0, 0, a)
}

// ---------- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return c.Bool(a.C == 0)
	case ONot:
		return a.A[0]
	case OTbl:
		nt := make([]uint64, len(a.Tab))
		for i, x := range a.Tab {
			nt[i] = 1 - x
		}
		var o *Term
		if a.Orig != nil {
			o = c.rawNot(a.Orig)
		}
		return c.MkTbl(a.A[0], nt, KBool, 0, o)
	}
	return c.rawNot(a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsFalse() || b.IsFalse() {
		return c.False
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() {
		return a
	}
	if a.Op == ONot && a.A[0] == b || b.Op == ONot && b.A[0] == a {
		return c.False
	}
	// a<b already says that a and b differ
	if ltDiffer(a, b) {
		return b
	}
	if ltDiffer(b, a) {
		return a
	}
	// absorption for nested
	if b.Op == OAnd {
		for _, x := range b.A {
			if x == a {
				return b
			}
			if x.Op == ONot && x.A[0] == a || a.Op == ONot && a.A[0] == x {
				return c.False
			}
		}
	}
	if a.Op == OAnd {
		for _, x := range a.A {
			if x == b {
				return a
			}
			if x.Op == ONot && x.A[0] == b || b.Op == ONot && b.A[0] == x {
				return c.False
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	if a.root != nil && a.root == b.root {
		return c.fold(c.app(OAnd, KBool, 0, 0, a, b))
	}
	return c.app(OAnd, KBool, 0, 0, a, b)
}

func (c *Ctx) AndN(xs ...*Term) *Term {
	r := c.True
	for _, x := range xs {
		r = c.And(r, x)
	}
	return r
}

// ltDiffer reports whether ne says x!=y and lt says x<y or y<x.
func ltDiffer(ne, lt *Term) bool {
	if ne.Op != ONot || ne.A[0].Op != OEq || lt.Op != OILt {
		return false
	}
	e := ne.A[0]
	return e.A[0] == lt.A[0] && e.A[1] == lt.A[1] || e.A[0] == lt.A[1] && e.A[1] == lt.A[0]
}

func (c *Ctx) Or(a, b *Term) *Term {
	return c.Not(c.And(c.Not(a), c.Not(b)))
}

func (c *Ctx) OrN(xs ...*Term) *Term {
	r := c.False
	for _, x := range xs {
		r = c.Or(r, x)
	}
	return r
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

// parity returns the 1-bit sum of input bits that decides g, and whether g holds when it is 1.
func parity(g *Term) (*Term, bool) {
	var b *Term
	pos := true
	switch {
	case g.Op == OTbl && g.A[0].K == KBV && g.A[0].W == 1:
		b, pos = g.A[0], g.Tab[1] != 0
	case g.Op == OEq && g.A[0].K == KBV && g.A[0].W == 1:
		k := g.A[1]
		if b = g.A[0]; b.IsConst() {
			b, k = k, b
		}
		if !k.IsConst() {
			return nil, false
		}
		pos = k.C == 1
	default:
		return nil, false
	}
	lin := func(t *Term) bool {
		return t.IsConst() || t.Op == OVar || t.Op == OExtract && t.A[0].Op == OVar
	}
	if b.Op == OXor {
		for _, t := range b.A {
			if !lin(t) {
				return nil, false
			}
		}
		return b, pos
	}
	if lin(b) {
		return b, pos
	}
	return nil, false
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.IsTrue() {
		return a
	}
	if g.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if g.Op == ONot {
		return c.Ite(g.A[0], b, a)
	}
	if a.K == KBool {
		if a.IsTrue() {
			return c.Or(g, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(g), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.IsFalse() {
			return c.And(g, a)
		}
		if a == g {
			return c.Or(g, b)
		}
		if b == g {
			return c.And(g, a)
		}
	}
	// nested same guard
	if a.Op == OIte && a.A[0] == g {
		a = a.A[1]
	}
	if b.Op == OIte && b.A[0] == g {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	// ite(g, x, ite(h, x, y)) = ite(g|h, x, y)
	if b.Op == OIte && b.A[1] == a {
		return c.Ite(c.Or(g, b.A[0]), a, b.A[2])
	}
	if b.Op == OIte && b.A[2] == a {
		return c.Ite(c.And(c.Not(g), b.A[0]), b.A[1], a)
	}
	if a.Op == OIte && a.A[1] == b {
		return c.Ite(c.And(g, c.Not(a.A[0])), a.A[2], b)
	}
	if a.Op == OIte && a.A[2] == b {
		return c.Ite(c.And(g, a.A[0]), a.A[1], b)
	}
	if a.K == KBV && !a.IsConst() && !b.IsConst() && a.W <= 64 {
		// values that differ by a constant under a parity condition stay linear
		if bit, pos := parity(g); bit != nil {
			if d := c.Xor(a, b); d.IsConst() {
				ps := make([]*Term, a.W)
				for j := 0; j < a.W; j++ {
					ps[a.W-1-j] = c.BV(1, 0)
					if d.C>>uint(j)&1 != 0 {
						ps[a.W-1-j] = bit
					}
				}
				if !pos {
					return c.Xor(a, c.Concat(ps...))
				}
				return c.Xor(b, c.Concat(ps...))
			}
		}
	}
	if a.K == KBV && (a.Op == OConcat || b.Op == OConcat) {
		// split on common boundaries when both share constant/equal parts
		if pa, pb, ok := c.align(a, b); ok {
			same := false
			for i := range pa {
				if pa[i] == pb[i] {
					same = true
				}
			}
			if same {
				ps := make([]*Term, len(pa))
				for i := range pa {
					ps[i] = c.Ite(g, pa[i], pb[i])
				}
				return c.Concat(ps...)
			}
		}
	}
	return c.fold(c.app(OIte, a.K, a.W, 0, g, a, b))
}

// ---------- equality / order

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.K != b.K || a.W != b.W {
		panic(fmt.Sprintf("Eq sort mismatch %v/%d %v/%d", a.K, a.W, b.K, b.W))
	}
	if a.IsConst() && b.IsConst() {
		return c.False // hash-consed, different
	}
	if a.K == KBool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		if a.Op == ONot && a.A[0] == b || b.Op == ONot && b.A[0] == a {
			return c.False
		}
	}
	if a.K == KBV {
		if a.uhi < b.ulo || b.uhi < a.ulo {
			return c.False
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			switch a.Op {
			case OConcat:
				r := c.True
				off := a.W
				for _, p := range a.A {
					off -= p.W
					r = c.And(r, c.Eq(p, c.BV(p.W, b.C>>uint(off))))
					if r.IsFalse() {
						return r
					}
				}
				return r
			case OIte:
				if a.A[1].IsConst() || a.A[2].IsConst() {
					return c.Ite(a.A[0], c.Eq(a.A[1], b), c.Eq(a.A[2], b))
				}
			case OAdd:
				// move constant
				last := a.A[len(a.A)-1]
				if last.IsConst() {
					return c.Eq(c.Sub(a, last), c.BV(a.W, b.C-last.C))
				}
			case OSext:
				x := a.A[0]
				if uint64(sx(b.C, x.W))&mask(a.W) != b.C {
					return c.False
				}
				return c.Eq(x, c.BV(x.W, b.C))
			}
		} else if a.Op == OConcat || b.Op == OConcat {
			if pa, pb, ok := c.align(a, b); ok && len(pa) > 1 {
				r := c.True
				for i := range pa {
					r = c.And(r, c.Eq(pa[i], pb[i]))
					if r.IsFalse() {
						return r
					}
				}
				return r
			}
		} else if a.Op == OXor || b.Op == OXor {
			// cancel common operands
			d := c.Xor(a, b)
			if d.IsConst() {
				return c.Bool(d.C == 0)
			}
			if d.Op != OXor || len(d.A) < xorLen(a)+xorLen(b) {
				return c.Eq(d, c.BV(a.W, 0))
			}
		} else if a.Op == OIte && b.Op == OIte && a.A[0] == b.A[0] {
			return c.Ite(a.A[0], c.Eq(a.A[1], b.A[1]), c.Eq(a.A[2], b.A[2]))
		} else if a.Op == OAdd || b.Op == OAdd {
			// cancel common summands when it reduces to something over smaller terms
			d := c.Sub(a, b)
			if d.IsConst() {
				return c.Bool(d.C == 0)
			}
		}
	}
	if a.K == KInt {
		if a.ihi != nil && b.ilo != nil && a.ihi.Cmp(b.ilo) < 0 || b.ihi != nil && a.ilo != nil && b.ihi.Cmp(a.ilo) < 0 {
			return c.False
		}
		d := c.ISub(a, b)
		if d.IsConst() {
			return c.Bool(d.B.Sign() == 0)
		}
		if r := c.ieqBV(a, b); r != nil {
			return r
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.fold(c.app(OEq, KBool, 0, 0, a, b))
}

func xorLen(t *Term) int {
	if t.Op == OXor {
		return len(t.A)
	}
	return 1
}

// ieqBV turns an integer equality between converted bitvectors into a bitvector one.
func (c *Ctx) ieqBV(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if a.Op != OIFromU && a.Op != OIFromS {
		return nil
	}
	x := a.A[0]
	if b.IsConst() {
		if a.Op == OIFromU {
			if b.B.Sign() < 0 || b.B.BitLen() > x.W {
				return c.False
			}
			return c.Eq(x, c.BV(x.W, b.B.Uint64()))
		}
		if !b.B.IsInt64() || sx(uint64(b.B.Int64())&mask(x.W), x.W) != b.B.Int64() {
			return c.False
		}
		return c.Eq(x, c.BV(x.W, uint64(b.B.Int64())&mask(x.W)))
	}
	if a.Op == b.Op && b.A[0].W == x.W {
		return c.Eq(x, b.A[0])
	}
	return nil
}

func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.uhi < b.ulo {
		return c.True
	}
	if a.ulo >= b.uhi {
		return c.False
	}
	if b.IsConst() && b.C == 1 {
		return c.Eq(a, c.BV(a.W, 0))
	}
	if a.Op == OConcat && b.Op == OConcat || a.Op == OConcat && b.IsConst() || a.IsConst() && b.Op == OConcat {
		// strip equal leading parts (e.g. zero extension)
		if pa, pb, ok := c.align(a, b); ok && len(pa) > 1 && pa[0] == pb[0] {
			return c.Ult(c.Concat(pa[1:]...), c.Concat(pb[1:]...))
		}
	}
	return c.fold(c.app(OUlt, KBool, 0, 0, a, b))
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	top := uint64(1) << uint(a.W-1)
	if a.uhi < top && b.uhi < top || a.ulo >= top && b.ulo >= top {
		return c.Ult(a, b)
	}
	la, ha := a.SRange()
	lb, hb := b.SRange()
	if ha < lb {
		return c.True
	}
	if la >= hb {
		return c.False
	}
	return c.fold(c.app(OSlt, KBool, 0, 0, a, b))
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---------- structure

// parts of t, msb first
func parts(t *Term) []*Term {
	if t.Op == OConcat {
		return t.A
	}
	return []*Term{t}
}

// align splits a and b at common boundaries.
func (c *Ctx) align(a, b *Term) (pa, pb []*Term, ok bool) {
	A := append([]*Term(nil), parts(a)...)
	B := append([]*Term(nil), parts(b)...)
	for len(A) > 0 && len(B) > 0 {
		x, y := A[0], B[0]
		w := min(x.W, y.W)
		if x.W == w {
			pa = append(pa, x)
			A = A[1:]
		} else {
			pa = append(pa, c.Extract(x, x.W-1, x.W-w))
			A[0] = c.Extract(x, x.W-w-1, 0)
		}
		if y.W == w {
			pb = append(pb, y)
			B = B[1:]
		} else {
			pb = append(pb, c.Extract(y, y.W-1, y.W-w))
			B[0] = c.Extract(y, y.W-w-1, 0)
		}
	}
	return pa, pb, true
}

func (c *Ctx) Concat(ps ...*Term) *Term {
	var out []*Term
	w := 0
	var push func(p *Term)
	push = func(p *Term) {
		if p.Op == OConcat {
			for _, q := range p.A {
				push(q)
			}
			return
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			switch {
			case l.IsConst() && p.IsConst():
				out[len(out)-1] = c.BV(l.W+p.W, l.C<<uint(p.W)|p.C)
				return
			case l.Op == OExtract && p.Op == OExtract && l.A[0] == p.A[0] && l.C == p.C+uint64(p.W):
				out = out[:len(out)-1]
				push(c.Extract(l.A[0], int(l.C)+l.W-1, int(p.C)))
				return
			case l.Op == OIte && p.Op == OIte && l.A[0] == p.A[0] && !(l.W == 1 && p.W == 1):
				out = out[:len(out)-1]
				push(c.Ite(l.A[0], c.Concat(l.A[1], p.A[1]), c.Concat(l.A[2], p.A[2])))
				return
			case l.Op == OIte && p.Op == OIte && l.A[0] == p.A[0]:
				out = out[:len(out)-1]
				push(c.Ite(l.A[0], c.Concat(l.A[1], p.A[1]), c.Concat(l.A[2], p.A[2])))
				return
			case l.Op == OTbl && p.Op == OTbl && l.A[0] == p.A[0] && l.W+p.W <= 64:
				out = out[:len(out)-1]
				nt := make([]uint64, len(l.Tab))
				for i := range nt {
					nt[i] = l.Tab[i]<<uint(p.W) | p.Tab[i]
				}
				push(c.MkTbl(l.A[0], nt, KBV, l.W+p.W, nil))
				return
			case l.Op == OXor && p.Op == OXor && len(l.A) == len(p.A):
				// merge xors of adjacent extracts
				if m := c.mergeXor(l, p); m != nil {
					out = out[:len(out)-1]
					push(m)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		w += p.W
		push(p)
	}
	if w > 64 {
		panic("concat wider than 64")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.app(OConcat, KBV, w, 0, out...)
}

func (c *Ctx) mergeXor(l, p *Term) *Term {
	// each arg of l must be extract(x, i..) with partner extract(x, j) adjacent in p, or consts
	used := make([]bool, len(p.A))
	var res []*Term
	for _, x := range l.A {
		found := -1
		for j, y := range p.A {
			if used[j] {
				continue
			}
			if x.IsConst() && y.IsConst() {
				found = j
				break
			}
			if x.Op == OExtract && y.Op == OExtract && x.A[0] == y.A[0] && x.C == y.C+uint64(y.W) {
				found = j
				break
			}
		}
		if found < 0 {
			return nil
		}
		used[found] = true
		res = append(res, c.Concat(x, p.A[found]))
	}
	return c.Xor(res...)
}

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if lo == 0 && w == t.W {
		return t
	}
	if w <= 0 || hi >= t.W || lo < 0 {
		panic(fmt.Sprintf("bad extract [%d:%d] of %d", hi, lo, t.W))
	}
	switch t.Op {
	case OConst:
		return c.BV(w, t.C>>uint(lo))
	case OExtract:
		return c.Extract(t.A[0], hi+int(t.C), lo+int(t.C))
	case OConcat:
		var ps []*Term
		off := t.W
		for _, p := range t.A {
			off -= p.W
			// p covers [off, off+p.W-1]
			h := min(hi, off+p.W-1)
			l := max(lo, off)
			if h >= l {
				ps = append(ps, c.Extract(p, h-off, l-off))
			}
		}
		return c.Concat(ps...)
	case OTbl:
		nt := make([]uint64, len(t.Tab))
		for i, x := range t.Tab {
			nt[i] = (x >> uint(lo)) & mask(w)
		}
		return c.MkTbl(t.A[0], nt, KBV, w, nil)
	case OXor:
		as := make([]*Term, len(t.A))
		for i, a := range t.A {
			as[i] = c.Extract(a, hi, lo)
		}
		return c.Xor(as...)
	case OBAnd:
		return c.BAnd(c.Extract(t.A[0], hi, lo), c.Extract(t.A[1], hi, lo))
	case OBOr:
		return c.BOr(c.Extract(t.A[0], hi, lo), c.Extract(t.A[1], hi, lo))
	case OIte:
		return c.Ite(t.A[0], c.Extract(t.A[1], hi, lo), c.Extract(t.A[2], hi, lo))
	case OSext:
		x := t.A[0]
		if hi < x.W {
			return c.Extract(x, hi, lo)
		}
		if lo < x.W {
			return c.Sext(c.Extract(x, x.W-1, lo), w)
		}
		return c.Sext(c.Extract(x, x.W-1, x.W-1), w)
	case OAdd, OMul:
		if lo == 0 { // low bits of linear ops
			as := make([]*Term, len(t.A))
			for i, a := range t.A {
				as[i] = c.Extract(a, hi, 0)
			}
			if t.Op == OAdd {
				return c.Add(as...)
			}
			return c.Mul(as[0], as[1])
		}
	case OIToBV:
		if lo == 0 {
			return c.IToBV(t.A[0], w)
		}
	}
	// known-zero high bits
	if t.uhi < uint64(1)<<uint(lo) && lo < 64 {
		return c.BV(w, 0)
	}
	return c.fold(c.app(OExtract, KBV, w, uint64(lo), t))
}

func (c *Ctx) Zext(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	return c.Concat(c.BV(w-t.W, 0), t)
}

func (c *Ctx) Sext(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	if t.IsConst() {
		return c.BV(w, uint64(sx(t.C, t.W)))
	}
	if t.uhi < uint64(1)<<uint(t.W-1) {
		return c.Zext(t, w)
	}
	if t.Op == OSext {
		return c.Sext(t.A[0], w)
	}
	return c.fold(c.app(OSext, KBV, w, 0, t))
}

// ---------- bitwise

func (c *Ctx) BNot(a *Term) *Term { return c.Xor(a, c.BV(a.W, mask(a.W))) }

func (c *Ctx) Xor(xs ...*Term) *Term {
	w := xs[0].W
	var cst uint64
	cnt := map[*Term]bool{}
	var list []*Term
	var add func(t *Term)
	anyConcat := false
	add = func(t *Term) {
		if t.Op == OXor {
			for _, a := range t.A {
				add(a)
			}
			return
		}
		if t.IsConst() {
			cst ^= t.C
			return
		}
		if cnt[t] {
			cnt[t] = false
			return
		}
		if _, seen := cnt[t]; !seen {
			list = append(list, t)
		}
		cnt[t] = true
	}
	for _, x := range xs {
		add(x)
	}
	var as []*Term
	for _, t := range list {
		if cnt[t] {
			as = append(as, t)
			if t.Op == OConcat {
				anyConcat = true
			}
		}
	}
	if len(as) == 0 {
		return c.BV(w, cst)
	}
	if len(as) == 1 && cst == 0 {
		return as[0]
	}
	if anyConcat {
		// split at union of boundaries
		cuts := map[int]bool{0: true, w: true}
		for _, t := range as {
			off := w
			for _, p := range parts(t) {
				off -= p.W
				cuts[off] = true
			}
		}
		var cs []int
		for k := range cuts {
			cs = append(cs, k)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(cs)))
		var ps []*Term
		for i := 0; i+1 < len(cs); i++ {
			hi, lo := cs[i]-1, cs[i+1]
			sub := make([]*Term, 0, len(as)+1)
			for _, t := range as {
				sub = append(sub, c.Extract(t, hi, lo))
			}
			sub = append(sub, c.BV(hi-lo+1, cst>>uint(lo)))
			ps = append(ps, c.Xor(sub...))
		}
		return c.Concat(ps...)
	}
	for i, a := range as {
		if a.Op == OSext && a.A[0].W == 1 && w > 1 { // conditional complement
			rest := append(append([]*Term{c.BV(w, cst)}, as[:i]...), as[i+1:]...)
			x := c.Xor(rest...)
			return c.Ite(c.Eq(a.A[0], c.BV(1, 1)), c.BNot(x), x)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if cst != 0 {
		as = append(as, c.BV(w, cst))
	}
	// fold tables sharing a root
	return c.fold(c.app(OXor, KBV, w, 0, as...))
}

func (c *Ctx) maskConst(a *Term, m uint64) *Term {
	w := a.W
	m &= mask(w)
	if m == mask(w) {
		return a
	}
	if m == 0 {
		return c.BV(w, 0)
	}
	var ps []*Term
	i := w - 1
	for i >= 0 {
		b := m >> uint(i) & 1
		j := i
		for j > 0 && m>>uint(j-1)&1 == b {
			j--
		}
		if b == 1 {
			ps = append(ps, c.Extract(a, i, j))
		} else {
			ps = append(ps, c.BV(i-j+1, 0))
		}
		i = j - 1
	}
	return c.Concat(ps...)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.BV(a.W, a.C&b.C)
		}
		return c.maskConst(a, b.C)
	}
	if a.Op == OConcat || b.Op == OConcat {
		pa, pb, _ := c.align(a, b)
		ps := make([]*Term, len(pa))
		for i := range pa {
			ps[i] = c.BAnd(pa[i], pb[i])
		}
		return c.Concat(ps...)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.fold(c.app(OBAnd, KBV, a.W, 0, a, b))
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.BV(a.W, a.C|b.C)
		}
		if b.C == 0 {
			return a
		}
		// not(and(not a, not b))
		var ps []*Term
		m := b.C
		i := a.W - 1
		for i >= 0 {
			bb := m >> uint(i) & 1
			j := i
			for j > 0 && m>>uint(j-1)&1 == bb {
				j--
			}
			if bb == 0 {
				ps = append(ps, c.Extract(a, i, j))
			} else {
				ps = append(ps, c.BV(i-j+1, mask(i-j+1)))
			}
			i = j - 1
		}
		return c.Concat(ps...)
	}
	if a.Op == OConcat || b.Op == OConcat {
		pa, pb, _ := c.align(a, b)
		ps := make([]*Term, len(pa))
		for i := range pa {
			ps[i] = c.BOr(pa[i], pb[i])
		}
		return c.Concat(ps...)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.fold(c.app(OBOr, KBV, a.W, 0, a, b))
}

func (c *Ctx) Shl(a, s *Term) *Term {
	if s.IsConst() {
		k := s.C
		if k == 0 {
			return a
		}
		if k >= uint64(a.W) {
			return c.BV(a.W, 0)
		}
		return c.Concat(c.Extract(a, a.W-1-int(k), 0), c.BV(int(k), 0))
	}
	return c.fold(c.app(OShl, KBV, a.W, 0, a, s))
}
func (c *Ctx) Lshr(a, s *Term) *Term {
	if s.IsConst() {
		k := s.C
		if k == 0 {
			return a
		}
		if k >= uint64(a.W) {
			return c.BV(a.W, 0)
		}
		return c.Concat(c.BV(int(k), 0), c.Extract(a, a.W-1, int(k)))
	}
	return c.fold(c.app(OLshr, KBV, a.W, 0, a, s))
}
func (c *Ctx) Ashr(a, s *Term) *Term {
	if s.IsConst() {
		k := s.C
		if k == 0 {
			return a
		}
		if k >= uint64(a.W) {
			k = uint64(a.W - 1)
		}
		return c.Sext(c.Extract(a, a.W-1, int(k)), a.W)
	}
	return c.fold(c.app(OAshr, KBV, a.W, 0, a, s))
}

// ---------- BV arithmetic

// Add builds the linear normal form of a sum.
func (c *Ctx) Add(xs ...*Term) *Term {
	w := xs[0].W
	m := mask(w)
	var cst uint64
	coef := map[*Term]uint64{}
	var order []*Term
	var add func(t *Term, k uint64)
	add = func(t *Term, k uint64) {
		switch {
		case t.IsConst():
			cst += k * t.C
		case t.Op == OAdd:
			for _, a := range t.A {
				add(a, k)
			}
		case t.Op == OMul && t.A[0].IsConst():
			add(t.A[1], k*t.A[0].C)
		default:
			if _, ok := coef[t]; !ok {
				order = append(order, t)
			}
			coef[t] += k
		}
	}
	for _, x := range xs {
		add(x, 1)
	}
	cst &= m
	var as []*Term
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	for _, t := range order {
		k := coef[t] & m
		if k == 0 {
			continue
		}
		if k == 1 {
			as = append(as, t)
		} else {
			as = append(as, c.app(OMul, KBV, w, 0, c.BV(w, k), t))
		}
	}
	if cst != 0 || len(as) == 0 {
		as = append(as, c.BV(w, cst))
	}
	if len(as) == 1 {
		if as[0].Op == OMul {
			return c.fold(as[0])
		}
		return as[0]
	}
	// disjoint-bit addition -> or (concat normal form): only for two terms
	if len(as) == 2 && (as[0].Op == OConcat || as[1].Op == OConcat) && c.disjoint(as[0], as[1]) {
		return c.BOr(as[0], as[1])
	}
	return c.fold(c.app(OAdd, KBV, w, 0, as...))
}

func (c *Ctx) disjoint(a, b *Term) bool {
	pa, pb, _ := c.align(a, b)
	for i := range pa {
		if !(pa[i].IsConst() && pa[i].C == 0) && !(pb[i].IsConst() && pb[i].C == 0) {
			return false
		}
	}
	return true
}

func (c *Ctx) Neg(a *Term) *Term { return c.Mul(c.BV(a.W, mask(a.W)), a) }
func (c *Ctx) Sub(a, b *Term) *Term {
	return c.Add(a, c.Neg(b))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		if b.IsConst() {
			return c.BV(a.W, a.C*b.C)
		}
		switch a.C {
		case 0:
			return a
		case 1:
			return b
		}
		if b.Op == OAdd {
			as := make([]*Term, len(b.A))
			for i, x := range b.A {
				as[i] = c.Mul(a, x)
			}
			return c.Add(as...)
		}
		if b.Op == OMul && b.A[0].IsConst() {
			return c.Mul(c.BV(a.W, a.C*b.A[0].C), b.A[1])
		}
		return c.fold(c.app(OMul, KBV, a.W, 0, a, b))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.fold(c.app(OMul, KBV, a.W, 0, a, b))
}

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	t := &Term{Op: op, W: a.W, K: KBV}
	if a.IsConst() && b.IsConst() {
		return c.BV(a.W, evalOp(t, []uint64{a.C, b.C}))
	}
	return c.fold(c.app(op, KBV, a.W, 0, a, b))
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.IsConst() && b.C != 0 {
		if b.C == 1 {
			return a
		}
		if b.C&(b.C-1) == 0 {
			return c.Lshr(a, c.BV(a.W, uint64(bits.TrailingZeros64(b.C))))
		}
		if a.uhi < b.C {
			return c.BV(a.W, 0)
		}
	}
	return c.bin(OUDiv, a, b)
}
func (c *Ctx) URem(a, b *Term) *Term {
	if b.IsConst() && b.C != 0 {
		if b.C&(b.C-1) == 0 {
			return c.BAnd(a, c.BV(a.W, b.C-1))
		}
		if a.uhi < b.C {
			return a
		}
	}
	return c.bin(OURem, a, b)
}
func (c *Ctx) SDiv(a, b *Term) *Term {
	top := uint64(1) << uint(a.W-1)
	if a.uhi < top && b.uhi < top {
		return c.UDiv(a, b)
	}
	return c.bin(OSDiv, a, b)
}
func (c *Ctx) SRem(a, b *Term) *Term {
	top := uint64(1) << uint(a.W-1)
	if a.uhi < top && b.uhi < top {
		return c.URem(a, b)
	}
	return c.bin(OSRem, a, b)
}

// ---------- Int

func (c *Ctx) IAdd(xs ...*Term) *Term {
	cst := new(big.Int)
	coef := map[*Term]*big.Int{}
	var order []*Term
	var add func(t *Term, k *big.Int)
	add = func(t *Term, k *big.Int) {
		switch {
		case t.IsConst():
			cst.Add(cst, new(big.Int).Mul(k, t.B))
		case t.Op == OIAdd:
			for _, a := range t.A {
				add(a, k)
			}
		case t.Op == OIMul && t.A[0].IsConst():
			add(t.A[1], new(big.Int).Mul(k, t.A[0].B))
		default:
			if _, ok := coef[t]; !ok {
				order = append(order, t)
				coef[t] = new(big.Int)
			}
			coef[t].Add(coef[t], k)
		}
	}
	for _, x := range xs {
		add(x, bigOne)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	var as []*Term
	for _, t := range order {
		k := coef[t]
		if k.Sign() == 0 {
			continue
		}
		if k.Cmp(bigOne) == 0 {
			as = append(as, t)
		} else {
			as = append(as, c.app(OIMul, KInt, 0, 0, c.Int(k), t))
		}
	}
	if cst.Sign() != 0 || len(as) == 0 {
		as = append(as, c.Int(cst))
	}
	if len(as) == 1 {
		return as[0]
	}
	return c.app(OIAdd, KInt, 0, 0, as...)
}
func (c *Ctx) INeg(a *Term) *Term    { return c.IMul(c.IntC(-1), a) }
func (c *Ctx) ISub(a, b *Term) *Term { return c.IAdd(a, c.INeg(b)) }
func (c *Ctx) IMul(a, b *Term) *Term {
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		if b.IsConst() {
			return c.Int(new(big.Int).Mul(a.B, b.B))
		}
		if a.B.Sign() == 0 {
			return a
		}
		if a.B.Cmp(bigOne) == 0 {
			return b
		}
		if b.Op == OIAdd {
			as := make([]*Term, len(b.A))
			for i, x := range b.A {
				as[i] = c.IMul(a, x)
			}
			return c.IAdd(as...)
		}
		if b.Op == OIMul && b.A[0].IsConst() {
			return c.IMul(c.Int(new(big.Int).Mul(a.B, b.A[0].B)), b.A[1])
		}
		return c.app(OIMul, KInt, 0, 0, a, b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.app(OIMul, KInt, 0, 0, a, b)
}
func (c *Ctx) IQuo(a, b *Term) *Term {
	if b.IsConst() && b.B.Sign() != 0 {
		if a.IsConst() {
			return c.Int(new(big.Int).Quo(a.B, b.B))
		}
		if b.B.Cmp(bigOne) == 0 {
			return a
		}
	}
	if x, y := c.cancel(a, b); x != nil {
		return c.IQuo(x, y)
	}
	return c.app(OIQuo, KInt, 0, 0, a, b)
}

// cancel removes a common positive constant factor of both operands.
func (c *Ctx) cancel(a, b *Term) (*Term, *Term) {
	fac := func(t *Term) *big.Int {
		if t.Op == OIMul && t.A[0].IsConst() && t.A[0].B.Sign() > 0 {
			return t.A[0].B
		}
		return nil
	}
	x, y := fac(a), fac(b)
	if x == nil || y == nil {
		return nil, nil
	}
	g := new(big.Int).GCD(nil, nil, x, y)
	if g.Cmp(bigOne) <= 0 {
		return nil, nil
	}
	return c.IMul(c.Int(new(big.Int).Quo(x, g)), a.A[1]), c.IMul(c.Int(new(big.Int).Quo(y, g)), b.A[1])
}
func (c *Ctx) IRem(a, b *Term) *Term {
	if b.IsConst() && b.B.Sign() != 0 {
		if a.IsConst() {
			return c.Int(new(big.Int).Rem(a.B, b.B))
		}
		if a.ilo != nil && a.ihi != nil && a.ilo.Sign() >= 0 && a.ihi.Cmp(b.B) < 0 {
			return a
		}
	}
	return c.app(OIRem, KInt, 0, 0, a, b)
}
func (c *Ctx) ILt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.ihi != nil && b.ilo != nil && a.ihi.Cmp(b.ilo) < 0 {
		return c.True
	}
	if a.ilo != nil && b.ihi != nil && a.ilo.Cmp(b.ihi) >= 0 {
		return c.False
	}
	d := c.ISub(a, b)
	if d.IsConst() {
		return c.Bool(d.B.Sign() < 0)
	}
	// comparisons of a converted bitvector with a constant or a like conversion
	if a.Op == b.Op && (a.Op == OIFromU || a.Op == OIFromS) && a.A[0].W == b.A[0].W {
		if a.Op == OIFromU {
			return c.Ult(a.A[0], b.A[0])
		}
		return c.Slt(a.A[0], b.A[0])
	}
	conv := func(t *Term, k *big.Int) *Term { // range analysis has excluded constants outside the type
		x := t.A[0]
		if t.Op == OIFromU {
			if k.Sign() < 0 || k.BitLen() > x.W {
				return nil
			}
			return c.BV(x.W, k.Uint64())
		}
		if !k.IsInt64() || sx(uint64(k.Int64())&mask(x.W), x.W) != k.Int64() {
			return nil
		}
		return c.BV(x.W, uint64(k.Int64())&mask(x.W))
	}
	if b.IsConst() && (a.Op == OIFromU || a.Op == OIFromS) {
		if k := conv(a, b.B); k != nil {
			if a.Op == OIFromU {
				return c.Ult(a.A[0], k)
			}
			return c.Slt(a.A[0], k)
		}
	}
	if a.IsConst() && (b.Op == OIFromU || b.Op == OIFromS) {
		if k := conv(b, a.B); k != nil {
			if b.Op == OIFromU {
				return c.Ult(k, b.A[0])
			}
			return c.Slt(k, b.A[0])
		}
	}
	return c.app(OILt, KBool, 0, 0, a, b)
}
func (c *Ctx) ILe(a, b *Term) *Term { return c.Not(c.ILt(b, a)) }
func (c *Ctx) IFromU(a *Term) *Term {
	if a.IsConst() {
		return c.Int(new(big.Int).SetUint64(a.C))
	}
	if a.Op == OIToBV {
		x := a.A[0]
		if x.ilo != nil && x.ihi != nil && x.ilo.Sign() >= 0 && x.ihi.BitLen() <= a.W {
			return x
		}
	}
	return c.app(OIFromU, KInt, 0, 0, a)
}
func (c *Ctx) IFromS(a *Term) *Term {
	if a.IsConst() {
		return c.IntC(sx(a.C, a.W))
	}
	if a.uhi < uint64(1)<<uint(a.W-1) {
		return c.IFromU(a)
	}
	if a.Op == OIToBV {
		x := a.A[0]
		lim := new(big.Int).Lsh(bigOne, uint(a.W-1))
		if x.ilo != nil && x.ihi != nil && x.ilo.Cmp(new(big.Int).Neg(lim)) >= 0 && x.ihi.Cmp(lim) < 0 {
			return x
		}
	}
	return c.app(OIFromS, KInt, 0, 0, a)
}
func (c *Ctx) IToBV(a *Term, w int) *Term {
	if a.IsConst() {
		m := new(big.Int).And(a.B, new(big.Int).SetUint64(mask(w)))
		return c.BV(w, m.Uint64())
	}
	if (a.Op == OIFromU || a.Op == OIFromS) && a.A[0].W >= w {
		return c.Extract(a.A[0], w-1, 0)
	}
	if a.Op == OIFromU {
		return c.Zext(a.A[0], w)
	}
	if a.Op == OIFromS {
		return c.Sext(a.A[0], w)
	}
	return c.app(OIToBV, KBV, w, 0, a)
}

// ---------- variable sets

type VarSet struct{ b []uint64 }

func (v *VarSet) has(i int) bool { return i/64 < len(v.b) && v.b[i/64]>>(uint(i)%64)&1 != 0 }
func (v *VarSet) Intersects(o *VarSet) bool {
	n := min(len(v.b), len(o.b))
	for i := 0; i < n; i++ {
		if v.b[i]&o.b[i] != 0 {
			return true
		}
	}
	return false
}
func (v *VarSet) orWith(o *VarSet) {
	for len(v.b) < len(o.b) {
		v.b = append(v.b, 0)
	}
	for i, x := range o.b {
		v.b[i] |= x
	}
}
func (v *VarSet) Clone() *VarSet { return &VarSet{append([]uint64(nil), v.b...)} }
func (v *VarSet) Or(o *VarSet)   { v.orWith(o) }
func (v *VarSet) AndNot(o *VarSet) {
	for i := range v.b {
		if i < len(o.b) {
			v.b[i] &^= o.b[i]
		}
	}
}
func (v *VarSet) Subset(o *VarSet) bool {
	for i, x := range v.b {
		if i >= len(o.b) {
			if x != 0 {
				return false
			}
			continue
		}
		if x&^o.b[i] != 0 {
			return false
		}
	}
	return true
}
func (v *VarSet) Empty() bool {
	for _, x := range v.b {
		if x != 0 {
			return false
		}
	}
	return true
}
func (v *VarSet) Has(id int32) bool { return v.has(int(id)) }

// VarsOf returns the set of variable term IDs occurring in t (indexed by Term.ID).
func (c *Ctx) VarsOf(t *Term) *VarSet {
	if t.vars != nil {
		return t.vars
	}
	switch {
	case t.Op == OConst:
		t.vars = &VarSet{}
	case t.Op == OVar:
		// compact variable index
		ix := c.varNum(t)
		vs := &VarSet{b: make([]uint64, ix/64+1)}
		vs.b[ix/64] |= 1 << (uint(ix) % 64)
		t.vars = vs
	case len(t.A) == 1:
		t.vars = c.VarsOf(t.A[0])
	default:
		var big *VarSet
		for _, a := range t.A {
			v := c.VarsOf(a)
			if big == nil || len(v.b) > len(big.b) {
				big = v
			}
		}
		all := true
		for _, a := range t.A {
			if !c.VarsOf(a).Subset(big) {
				all = false
				break
			}
		}
		if all {
			t.vars = big
		} else {
			vs := big.Clone()
			for _, a := range t.A {
				vs.orWith(c.VarsOf(a))
			}
			t.vars = vs
		}
	}
	return t.vars
}

func (c *Ctx) varNum(t *Term) int {
	// Vars is append-only; store index in C (unused for vars)
	if t.C == 0 {
		for i, v := range c.Vars {
			v.C = uint64(i) + 1
		}
	}
	return int(t.C) - 1
}

func (c *Ctx) VarIndex(t *Term) int { return c.varNum(t) }

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.Op {
	case OConst:
		switch t.K {
		case KBool:
			fmt.Fprintf(sb, "%v", t.C == 1)
		case KBV:
			fmt.Fprintf(sb, "%d'%d", t.C, t.W)
		default:
			sb.WriteString(t.B.String())
		}
		return
	case OVar:
		sb.WriteString(t.Name)
		return
	}
	if d > 6 {
		fmt.Fprintf(sb, "#%d", t.ID)
		return
	}
	sb.WriteString("(" + opNames[t.Op])
	if t.Op == OExtract {
		fmt.Fprintf(sb, "[%d:%d]", int(t.C)+t.W-1, t.C)
	}
	for _, a := range t.A {
		sb.WriteByte(' ')
		a.str(sb, d+1)
	}
	sb.WriteByte(')')
}

// Root returns the small root (if any) and the table of t over it.
func (c *Ctx) Root(t *Term) (*Term, []uint64) {
	if t.root == nil || t.IsConst() {
		return nil, nil
	}
	return t.root, c.table(t)
}
