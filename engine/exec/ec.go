package exec

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

// Elliptic curve and signature primitives, modelled abstractly.
//
// A point of secp256k1 is represented by its discrete logarithm e in [0,N)
// (0: the point at infinity). Its compressed form is 33 fresh bytes, an
// injective function of e; its X is the integer those bytes spell, its Y an
// opaque non-zero integer. Adding points adds their logarithms. Parsing bytes
// gives a point with exactly these bytes, or fails, always the same way for
// the same bytes. ECDSA and Ed25519 verdicts are uninterpreted, with the one
// law that a signature made with d verifies under the point d.

const ecp = "github.com/btcsuite/btcd/btcec."
const ecm = "(*github.com/btcsuite/btcd/btcec."

var curveN, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
var curveP, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
var curveGx, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
var curveGy, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)

type ecPoint struct {
	e    *sym.Term   // discrete logarithm
	b    []*sym.Term // 33 bytes
	x, y *sym.Term
}

type ecParse struct {
	in []*sym.Term
	ok *sym.Term
	p  *ecPoint
}

type ecSig struct {
	d, r, s *sym.Term
	h       []*sym.Term
	b       []*sym.Term
}

type ecState struct {
	pts    []*ecPoint
	byE    map[*sym.Term]*ecPoint
	byY    map[*sym.Term]*ecPoint
	parses []*ecParse
	i2b    map[*sym.Term][]*sym.Term // value -> 32 bytes
	i2bs   []*sym.Term
	b2i    map[*sym.Term]*sym.Term // first of those bytes -> value
	sigs   []*ecSig
	sparse []*ecParseSig
	vers   []*ufBool
}

type ecParseSig struct {
	in       []*sym.Term
	ok, r, s *sym.Term
}

type ufBool struct {
	name string
	in   []*sym.Term
	out  *sym.Term
}

func (x *Exec) ec() *ecState {
	if x.ecs == nil {
		x.ecs = &ecState{byE: map[*sym.Term]*ecPoint{}, byY: map[*sym.Term]*ecPoint{}, i2b: map[*sym.Term][]*sym.Term{}, b2i: map[*sym.Term]*sym.Term{}}
	}
	x.UFUsed = true
	return x.ecs
}

func (x *Exec) axiom(t *sym.Term) {
	if !t.IsTrue() {
		x.axioms = append(x.axioms, t)
	}
}

func sameTerms(a, b []*sym.Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// eqTerms compares bytes (or other terms), bytes of one word together.
func (x *Exec) eqTerms(a, b []*sym.Term) *sym.Term {
	if len(a) != len(b) {
		return x.c.False
	}
	cont := func(v []*sym.Term, j int) bool {
		p, q := v[j-1], v[j]
		return p.Op == sym.OExtract && q.Op == sym.OExtract && p.A[0] == q.A[0] && p.C == q.C+uint64(q.W)
	}
	cst := func(v []*sym.Term, j int) bool { return v[j-1].IsConst() && v[j].IsConst() }
	var es []*sym.Term
	for i := 0; i < len(a); {
		j := i + 1
		for j < len(a) && j-i < 8 && (cont(a, j) && (cont(b, j) || cst(b, j)) || cont(b, j) && cst(a, j)) {
			j++
		}
		if j > i+1 {
			es = append(es, x.c.Eq(x.c.Concat(a[i:j]...), x.c.Concat(b[i:j]...)))
		} else {
			es = append(es, x.c.Eq(a[i], b[i]))
		}
		i = j
	}
	return x.c.AndN(es...)
}

// words makes 8n fresh bytes out of n fresh words.
func (x *Exec) words(name string, n int) []*sym.Term {
	var o []*sym.Term
	for i := 0; i < n; i++ {
		w := x.c.Var(fmt.Sprintf("%s.w%d", name, i), sym.KBV, 64)
		for k := 56; k >= 0; k -= 8 {
			o = append(o, x.c.Extract(w, k+7, k))
		}
	}
	return o
}

// ufB is an uninterpreted predicate of the terms in.
func (x *Exec) ufB(name string, in []*sym.Term) *sym.Term {
	e := x.ec()
	for _, v := range e.vers {
		if v.name == name && sameTerms(v.in, in) {
			return v.out
		}
	}
	out := x.c.Var(fmt.Sprintf("%s.%d", name, len(e.vers)), sym.KBool, 0)
	x.instance([]*sym.Term{out}, in)
	for _, v := range e.vers {
		if v.name == name && len(v.in) == len(in) {
			x.axiom(x.c.Implies(x.eqTerms(v.in, in), x.c.Eq(v.out, out)))
		}
	}
	e.vers = append(e.vers, &ufBool{name, in, out})
	return out
}

// intVal is the big-endian value of b; values made by intBytes come back as themselves.
func (x *Exec) intVal(s *State, b []*sym.Term) *sym.Term {
	if x.ecs != nil && len(b) > 0 {
		k := 0
		for k < len(b) && b[k].IsConst() && b[k].C == 0 {
			k++
		}
		if k < len(b) {
			for _, t := range x.ecs.i2bs {
				o := x.ecs.i2b[t]
				m := len(o) - (len(b) - k)
				if m < 0 || o[m] != b[k] || !sameTerms(o[m:], b[k:]) {
					continue
				}
				if x.known(s, x.c.ILt(t, pow256(x, len(o)-m))) {
					return t
				}
			}
		}
	}
	return x.bytesToInt(b)
}

// known reports whether t is a conjunct of the path condition.
func (x *Exec) known(s *State, t *sym.Term) bool {
	if t.IsTrue() {
		return true
	}
	for _, u := range s.conj {
		if u == t {
			return true
		}
	}
	return false
}

// intBytes is the big-endian form of t with n bytes; t must be in [0, 256^n).
func (x *Exec) intBytes(t *sym.Term, n int) []*sym.Term {
	if t.IsConst() {
		return x.concBytes(t.B.FillBytes(make([]byte, n)))
	}
	e := x.ec()
	if o, ok := e.i2b[t]; ok && len(o) == n {
		return o
	}
	if o := x.undoBytes(t, n); o != nil {
		return o
	}
	var o []*sym.Term
	o = x.words(fmt.Sprintf("int.%d", len(e.i2bs)), (n+7)/8)
	o = o[len(o)-n:]
	x.instance(o, []*sym.Term{t})
	x.axiom(x.c.Eq(x.bytesToInt(o), t))
	for _, u := range e.i2bs {
		if p := e.i2b[u]; len(p) == n {
			x.axiom(x.c.Implies(x.c.Eq(t, u), x.eqTerms(o, p)))
		}
	}
	e.i2b[t] = o
	e.i2bs = append(e.i2bs, t)
	return o
}

// undoBytes recovers the bytes of a value that bytesToInt made of exactly n bytes.
func (x *Exec) undoBytes(t *sym.Term, n int) []*sym.Term {
	for _, b := range x.b2iLog {
		if len(b.b) == n && b.t == t {
			return b.b
		}
	}
	return nil
}

type b2iEntry struct {
	t *sym.Term
	b []*sym.Term
}

// ecNorm brings a logarithm into the form IRem(sum, N).
func (x *Exec) ecNorm(t *sym.Term) *sym.Term {
	c := x.c
	n := c.Int(curveN)
	var strip func(t *sym.Term) *sym.Term
	strip = func(t *sym.Term) *sym.Term {
		switch t.Op {
		case sym.OIRem:
			if t.A[1] == n {
				if lo, _ := t.A[0].IRange(); lo != nil && lo.Sign() >= 0 {
					return strip(t.A[0])
				}
			}
		case sym.OIAdd:
			var as []*sym.Term
			for _, a := range t.A {
				if lo, _ := a.IRange(); lo == nil || lo.Sign() < 0 {
					return t
				}
				as = append(as, strip(a))
			}
			return c.IAdd(as...)
		}
		return t
	}
	return c.IRem(strip(t), n)
}

// ecAdd: affine addition, for concrete points.
func ecAdd(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1.Sign() == 0 && y1.Sign() == 0 {
		return x2, y2
	}
	if x2.Sign() == 0 && y2.Sign() == 0 {
		return x1, y1
	}
	l := new(big.Int)
	if x1.Cmp(x2) == 0 {
		if new(big.Int).Mod(new(big.Int).Add(y1, y2), curveP).Sign() == 0 {
			return new(big.Int), new(big.Int)
		}
		l.Mul(x1, x1)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(y1, 1), curveP))
	} else {
		d := new(big.Int).Sub(x2, x1)
		d.Mod(d, curveP)
		l.Sub(y2, y1)
		l.Mul(l, d.ModInverse(d, curveP))
	}
	l.Mod(l, curveP)
	x3 := new(big.Int).Mul(l, l)
	x3.Sub(x3, x1).Sub(x3, x2).Mod(x3, curveP)
	y3 := new(big.Int).Sub(x1, x3)
	y3.Mul(y3, l).Sub(y3, y1).Mod(y3, curveP)
	return x3, y3
}

func ecBase(k *big.Int) (*big.Int, *big.Int) {
	rx, ry := new(big.Int), new(big.Int)
	for i := k.BitLen() - 1; i >= 0; i-- {
		rx, ry = ecAdd(rx, ry, rx, ry)
		if k.Bit(i) == 1 {
			rx, ry = ecAdd(rx, ry, curveGx, curveGy)
		}
	}
	return rx, ry
}

// point gives the point with logarithm t; bytes, if not nil, are its compressed form.
func (x *Exec) point(t *sym.Term, bytes []*sym.Term) *ecPoint {
	e := x.ec()
	c := x.c
	t = x.ecNorm(t)
	if p, ok := e.byE[t]; ok {
		return p
	}
	p := &ecPoint{e: t}
	id := len(e.pts)
	if t.IsConst() {
		px, py := ecBase(t.B)
		p.x, p.y = c.Int(px), c.Int(py)
		p.b = append([]*sym.Term{c.BV(8, uint64(2+py.Bit(0)))}, x.intBytes(p.x, 32)...)
	} else {
		if bytes == nil {
			bytes = []*sym.Term{c.Concat(c.BV(7, 1), c.Var(fmt.Sprintf("point.%d.odd", id), sym.KBV, 1))}
			bytes = append(bytes, x.words(fmt.Sprintf("point.%d", id), 4)...)
		}
		p.b = bytes
		p.x = x.logInt(bytes[1:])
		p.y = c.IntVar(fmt.Sprintf("point.%d.y", id), new(big.Int), new(big.Int).Sub(curveP, big.NewInt(1)))
		x.instance(append([]*sym.Term{p.y}, bytes...), []*sym.Term{t})
		zero := c.Eq(t, c.IntC(0))
		x.axiom(c.Eq(zero, c.Eq(p.y, c.IntC(0))))
		x.axiom(c.Eq(zero, c.Eq(p.x, c.IntC(0))))
		x.axiom(c.Implies(zero, c.Eq(p.b[0], c.BV(8, 2))))
		x.axiom(c.ILt(p.x, c.Int(curveP)))
	}
	for _, q := range e.pts {
		same := c.Eq(t, q.e)
		x.axiom(c.Eq(same, x.eqTerms(p.b, q.b)))
		x.axiom(c.Implies(same, c.Eq(p.y, q.y)))
	}
	e.pts = append(e.pts, p)
	e.byE[t] = p
	e.byY[p.y] = p
	return p
}

// logInt is bytesToInt, remembered so that intBytes can undo it.
func (x *Exec) logInt(b []*sym.Term) *sym.Term {
	t := x.bytesToInt(b)
	if !t.IsConst() && x.undoBytes(t, len(b)) == nil {
		x.b2iLog = append(x.b2iLog, b2iEntry{t, append([]*sym.Term(nil), b...)})
	}
	return t
}

// pointOf finds the point with coordinates px, py.
func (x *Exec) pointOf(px, py *sym.Term) *ecPoint {
	if p, ok := x.ec().byY[py]; ok && p.x == px {
		return p
	}
	if px.IsConst() && py.IsConst() && px.B.Sign() == 0 && py.B.Sign() == 0 {
		return x.point(x.c.IntC(0), nil)
	}
	if py.Op == sym.OIte && px.Op == sym.OIte && py.A[0] == px.A[0] {
		a, b := x.pointOf(px.A[1], py.A[1]), x.pointOf(px.A[2], py.A[2])
		return x.point(x.c.Ite(py.A[0], a.e, b.e), nil)
	}
	panic(unsup{"curve point from unknown coordinates"})
}

func (x *Exec) parsePoint(s *State, in []*sym.Term) (*ecPoint, bool) {
	e := x.ec()
	c := x.c
	if len(in) != 33 {
		if len(in) == 65 {
			panic(unsup{"uncompressed public key"})
		}
		return nil, false
	}
	for _, p := range e.pts {
		if sameTerms(p.b, in) {
			return p, !x.decide(s, c.Eq(p.e, c.IntC(0)))
		}
	}
	for _, q := range e.parses {
		if sameTerms(q.in, in) {
			return q.p, x.decide(s, q.ok)
		}
	}
	id := len(e.parses)
	q := &ecParse{in: in, ok: c.Var(fmt.Sprintf("parse.%d.ok", id), sym.KBool, 0)}
	// a logarithm of the point these bytes spell; its bytes are the input when it parses
	n1 := new(big.Int).Sub(curveN, big.NewInt(1))
	ev := c.IntVar(fmt.Sprintf("parse.%d.log", id), big.NewInt(1), n1)
	x.instance([]*sym.Term{q.ok, ev}, in)
	q.p = x.point(ev, nil)
	x.axiom(c.Implies(q.ok, x.eqTerms(q.p.b, in)))
	for _, p := range e.pts {
		if p != q.p {
			x.axiom(c.Implies(c.And(x.eqTerms(p.b, in), c.Not(c.Eq(p.e, c.IntC(0)))), q.ok))
		}
	}
	for _, o := range e.parses {
		x.axiom(c.Implies(x.eqTerms(o.in, in), c.Eq(o.ok, q.ok)))
	}
	e.parses = append(e.parses, q)
	return q.p, x.decide(s, q.ok)
}

func (x *Exec) resultType(c *callCtx, i int) types.Type {
	return c.fn.Signature.Results().At(i).Type()
}

func init() {
	m := moreIntrinsics
	ld := func(x *Exec, s *State, v Value) *sym.Term {
		p := x.ptrOf(s, v)
		if p.Obj == 0 {
			x.rtPanic("nil pointer")
		}
		t, ok := x.load(s, p).(*sym.Term)
		if !ok {
			panic(unsup{"big value"})
		}
		return t
	}
	alloc := func(x *Exec, s *State, t *sym.Term) Value { return Ptr{Obj: x.newObj(s, t, 0)} }
	m[ecp+"loadS256BytePoints"] = func(x *Exec, s *State, c *callCtx, a []Value) Value { return nilErr() }
	m[ecm+"KoblitzCurve).ScalarBaseMult"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		k := x.intVal(s, x.sliceBytes(s, a[1].(SliceV)))
		p := x.point(k, nil)
		return &Tuple{[]Value{alloc(x, s, p.x), alloc(x, s, p.y)}}
	}
	m[ecm+"KoblitzCurve).Add"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		p := x.pointOf(ld(x, s, a[1]), ld(x, s, a[2]))
		q := x.pointOf(ld(x, s, a[3]), ld(x, s, a[4]))
		r := x.point(x.c.IAdd(p.e, q.e), nil)
		return &Tuple{[]Value{alloc(x, s, r.x), alloc(x, s, r.y)}}
	}
	m[ecm+"KoblitzCurve).Double"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		p := x.pointOf(ld(x, s, a[1]), ld(x, s, a[2]))
		r := x.point(x.c.IAdd(p.e, p.e), nil)
		return &Tuple{[]Value{alloc(x, s, r.x), alloc(x, s, r.y)}}
	}
	// field positions in ecdsa.PublicKey-shaped structs
	fieldIx := func(t types.Type, name string) int {
		st := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
		panic(unsup{"no field " + name})
	}
	field := func(x *Exec, s *State, t types.Type, v Value, name string) Value {
		p := x.ptrOf(s, v)
		if p.Obj == 0 {
			x.rtPanic("nil pointer")
		}
		return x.load(s, p).(*StructV).F[fieldIx(t, name)]
	}
	m[ecm+"PublicKey).SerializeCompressed"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		t := c.fn.Signature.Recv().Type()
		p := x.pointOf(ld(x, s, field(x, s, t, a[0], "X")), ld(x, s, field(x, s, t, a[0], "Y")))
		return x.newByteSlice(s, p.b)
	}
	m[ecp+"ParsePubKey"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		p, ok := x.parsePoint(s, x.sliceBytes(s, a[0].(SliceV)))
		if !ok {
			return &Tuple{[]Value{Ptr{}, x.newErr("bad public key")}}
		}
		pt := x.resultType(c, 0)
		st := pt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := make([]Value, st.NumFields())
		for i := range f {
			f[i] = x.zero(st.Field(i).Type())
		}
		f[fieldIx(pt, "Curve")] = Iface{c.fn.Signature.Params().At(1).Type(), a[1]}
		f[fieldIx(pt, "X")] = alloc(x, s, p.x)
		f[fieldIx(pt, "Y")] = alloc(x, s, p.y)
		return &Tuple{[]Value{Ptr{Obj: x.newObj(s, &StructV{f}, 0)}, nilErr()}}
	}
	mkSig := func(x *Exec, s *State, st types.Type, r, v *sym.Term) Value {
		f := make([]Value, 2)
		f[fieldIx(st, "R")] = alloc(x, s, r)
		f[fieldIx(st, "S")] = alloc(x, s, v)
		return Ptr{Obj: x.newObj(s, &StructV{f}, 0)}
	}
	rs := func(x *Exec, name string) (*sym.Term, *sym.Term) {
		n1 := new(big.Int).Sub(curveN, big.NewInt(1))
		return x.c.IntVar(name+".r", big.NewInt(1), n1), x.c.IntVar(name+".s", big.NewInt(1), n1)
	}
	m[ecm+"PrivateKey).Sign"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		e := x.ec()
		t := c.fn.Signature.Recv().Type()
		d := ld(x, s, field(x, s, t, a[0], "D"))
		h := append([]*sym.Term(nil), x.sliceBytes(s, a[1].(SliceV))...)
		var g *ecSig
		for _, o := range e.sigs {
			if o.d == d && sameTerms(o.h, h) {
				g = o
			}
		}
		if g == nil {
			id := len(e.sigs)
			g = &ecSig{d: d, h: h}
			g.r, g.s = rs(x, fmt.Sprintf("sig.%d", id))
			for i := 0; i < 71; i++ {
				g.b = append(g.b, x.c.Var(fmt.Sprintf("sig.%d[%d]", id, i), sym.KBV, 8))
			}
			x.instance(append([]*sym.Term{g.r, g.s}, g.b...), append([]*sym.Term{d}, h...))
			for _, o := range e.sigs {
				same := x.c.And(x.c.Eq(o.d, d), x.eqTerms(o.h, h))
				x.axiom(x.c.Implies(same, x.c.AndN(x.c.Eq(o.r, g.r), x.c.Eq(o.s, g.s))))
				x.axiom(x.c.Eq(x.c.And(x.c.Eq(o.r, g.r), x.c.Eq(o.s, g.s)), x.eqTerms(o.b, g.b)))
			}
			x.note("serialized ECDSA signatures are modelled with 71 bytes (real ones have 8 to 72)")
			e.sigs = append(e.sigs, g)
		}
		return &Tuple{[]Value{mkSig(x, s, x.resultType(c, 0), g.r, g.s), nilErr()}}
	}
	m[ecm+"Signature).Serialize"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		t := c.fn.Signature.Recv().Type()
		r, v := ld(x, s, field(x, s, t, a[0], "R")), ld(x, s, field(x, s, t, a[0], "S"))
		for _, g := range x.ec().sigs {
			if g.r == r && g.s == v {
				return x.newByteSlice(s, g.b)
			}
		}
		panic(unsup{"serialize an unknown signature"})
	}
	m[ecp+"ParseSignature"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		e := x.ec()
		in := append([]*sym.Term(nil), x.sliceBytes(s, a[0].(SliceV))...)
		bad := &Tuple{[]Value{Ptr{}, x.newErr("bad signature")}}
		if len(in) < 8 {
			return bad
		}
		for _, g := range e.sigs {
			if sameTerms(g.b, in) {
				return &Tuple{[]Value{mkSig(x, s, x.resultType(c, 0), g.r, g.s), nilErr()}}
			}
		}
		var q *ecParseSig
		for _, o := range e.sparse {
			if sameTerms(o.in, in) {
				q = o
			}
		}
		if q == nil {
			id := len(e.sparse)
			q = &ecParseSig{in: in, ok: x.c.Var(fmt.Sprintf("psig.%d.ok", id), sym.KBool, 0)}
			q.r, q.s = rs(x, fmt.Sprintf("psig.%d", id))
			x.instance([]*sym.Term{q.ok, q.r, q.s}, in)
			for _, o := range e.sparse {
				x.axiom(x.c.Implies(x.eqTerms(o.in, in), x.c.AndN(x.c.Eq(o.ok, q.ok), x.c.Eq(o.r, q.r), x.c.Eq(o.s, q.s))))
			}
			for _, g := range e.sigs {
				x.axiom(x.c.Implies(x.eqTerms(g.b, in), x.c.AndN(q.ok, x.c.Eq(g.r, q.r), x.c.Eq(g.s, q.s))))
			}
			e.sparse = append(e.sparse, q)
		}
		if !x.decide(s, q.ok) {
			return bad
		}
		return &Tuple{[]Value{mkSig(x, s, x.resultType(c, 0), q.r, q.s), nilErr()}}
	}
	m[ecm+"Signature).Verify"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		e := x.ec()
		t := c.fn.Signature.Recv().Type()
		r, v := ld(x, s, field(x, s, t, a[0], "R")), ld(x, s, field(x, s, t, a[0], "S"))
		pt := c.fn.Signature.Params().At(1).Type()
		p := x.pointOf(ld(x, s, field(x, s, pt, a[2], "X")), ld(x, s, field(x, s, pt, a[2], "Y")))
		h := x.sliceBytes(s, a[1].(SliceV))
		in := append([]*sym.Term{r, v, p.e}, h...)
		ok := x.ufB("ecdsa", in)
		for _, g := range e.sigs {
			x.axiom(x.c.Implies(x.c.AndN(x.c.Eq(g.r, r), x.c.Eq(g.s, v), x.eqTerms(g.h, h), x.c.Eq(x.ecNorm(g.d), p.e), x.c.ILt(x.c.IntC(0), p.e)), ok))
		}
		return ok
	}

	// integers to bytes
	const bp = "(*math/big.Int)."
	m[bp+"FillBytes"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		t := ld(x, s, a[0])
		sl := a[1].(SliceV)
		lim := x.c.Int(new(big.Int).Lsh(big.NewInt(1), uint(8*sl.Len)))
		t = x.absInt(s, t)
		if !x.decide(s, x.c.ILt(t, lim)) {
			x.rtPanic("math/big: buffer too small to fit value")
		}
		var vs []Value
		for _, b := range x.intBytes(t, sl.Len) {
			vs = append(vs, b)
		}
		x.setElems(s, sl, 0, vs)
		return sl
	}
	m[bp+"Bytes"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		t := x.absInt(s, ld(x, s, a[0]))
		if t.IsConst() {
			return x.newByteSlice(s, x.concBytes(t.B.Bytes()))
		}
		_, hi := t.IRange()
		if hi == nil || hi.BitLen() > 512 {
			panic(unsup{"bytes of an unbounded integer"})
		}
		b := x.intBytes(t, (hi.BitLen()+7)/8)
		for len(b) > 0 {
			small := x.c.ILt(t, pow256(x, len(b)-1))
			if !x.decide(s, small) {
				break
			}
			x.restate(s, small)
			b = b[1:]
		}
		return x.newByteSlice(s, b)
	}
	m[bp+"Rsh"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		n := x.concretize(s, a[2].(*sym.Term))
		t := ld(x, s, a[1])
		if t.IsConst() {
			t = x.c.Int(new(big.Int).Rsh(t.B, uint(n)))
		} else {
			if lo, _ := t.IRange(); lo == nil || lo.Sign() < 0 {
				panic(unsup{"shift of a possibly negative integer"})
			}
			t = x.c.IQuo(t, x.c.Int(new(big.Int).Lsh(big.NewInt(1), uint(n))))
		}
		x.store(s, x.ptrOf(s, a[0]), t)
		return a[0]
	}
	m[bp+"BitLen"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		t := ld(x, s, a[0])
		if !t.IsConst() {
			panic(unsup{"symbolic BitLen"})
		}
		return x.c.BV(64, uint64(t.B.BitLen()))
	}
	m[bp+"SetBytes"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		b := x.sliceBytes(s, a[1].(SliceV))
		t := x.intVal(s, b)
		if !t.IsConst() && x.undoBytes(t, len(b)) == nil {
			x.b2iLog = append(x.b2iLog, b2iEntry{t, append([]*sym.Term(nil), b...)})
		}
		x.store(s, x.ptrOf(s, a[0]), t)
		return a[0]
	}

	// ed25519
	for _, pk := range []string{"golang.org/x/crypto/ed25519", "crypto/ed25519", "github.com/ndau/ndaumath/verifh/vh/ed25519"} {
		m[pk+".Verify"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
			pub, msg, sig := x.sliceBytes(s, a[0].(SliceV)), x.sliceBytes(s, a[1].(SliceV)), x.sliceBytes(s, a[2].(SliceV))
			if len(pub) != 32 {
				x.rtPanic("ed25519: bad public key length")
			}
			if len(sig) != 64 {
				return x.c.False
			}
			var in []*sym.Term
			in = append(append(append(in, pub...), sig...), msg...)
			return x.ufB("ed25519.verify", in)
		}
		m[pk+".Sign"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
			priv, msg := x.sliceBytes(s, a[0].(SliceV)), x.sliceBytes(s, a[1].(SliceV))
			if len(priv) != 64 {
				x.rtPanic("ed25519: bad private key length")
			}
			x.UFUsed = true
			var in []*sym.Term
			return x.newByteSlice(s, x.uf(s, "ed25519.sign", append(append(in, priv...), msg...), 64))
		}
	}
}

func (x *Exec) absInt(s *State, t *sym.Term) *sym.Term {
	if lo, _ := t.IRange(); lo != nil && lo.Sign() >= 0 {
		return t
	}
	if x.decide(s, x.c.ILt(t, x.c.IntC(0))) {
		return x.c.INeg(t)
	}
	return t
}

var _ *ssa.Function

func pow256(x *Exec, n int) *sym.Term {
	return x.c.Int(new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
}
