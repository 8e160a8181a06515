package exec

import (
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

type intrinsic func(x *Exec, s *State, c *callCtx, a []Value) Value

// fallback makes the executor interpret the real body instead.
type fallback struct{}

var errT = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("verif", "verif"), "opaqueError", nil), types.NewStruct(nil, nil), nil)
var typeT = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("verif", "verif"), "rtype", nil), types.NewStruct(nil, nil), nil)

var fnNameCache sync.Map

func fnName(fn *ssa.Function) string {
	if n, ok := fnNameCache.Load(fn); ok {
		return n.(string)
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	n := f.String()
	fnNameCache.Store(fn, n)
	return n
}

func (x *Exec) lookupIntrinsic(fn *ssa.Function) intrinsic {
	if it, ok := x.pkgIntr[fn]; ok {
		return it
	}
	it := intrinsics[fnName(fn)]
	if m := moreIntrinsics[fnName(fn)]; m != nil {
		it = m
	}
	if it == nil {
		if p := pkgOf(fn); noopPkgs[p] {
			it = func(x *Exec, s *State, c *callCtx, a []Value) Value {
				return x.zeroResults(c.fn)
			}
		}
	}
	if it != nil {
		inner := it
		name := fnName(fn)
		it = func(x *Exec, s *State, c *callCtx, a []Value) Value {
			r := inner(x, s, c, a)
			if _, fb := r.(fallback); fb {
				if c.call == nil {
					panic(unsup{"fallback of deferred intrinsic " + name})
				}
				pre := x.fullKey(s)
				s.pruneCaller()
				x.pushFrame(s, c.fn, a, nil, retStore, pre, c.call)
				return pushed{}
			}
			x.fnNames["model:"+name] = true
			return r
		}
	}
	x.pkgIntr[fn] = it
	return it
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

var noopPkgs = map[string]bool{"internal/race": true, "internal/msan": true, "internal/asan": true}

func (x *Exec) newErr(msg string) Iface { return Iface{errT, &ErrV{msg}} }
func nilErr() Iface                     { return Iface{} }

func (x *Exec) opaqueCall(s *State, om opaqueMethod, args []Value) Value {
	switch v := om.recv.V.(type) {
	case Ptr:
		if om.recv.T == hashT {
			return x.hashMethod(s, v, om.name, args)
		}
	case *ErrV:
		switch om.name {
		case "Error", "String":
			x.note("error texts are not modelled")
			return concStr("error")
		case "Cause", "Unwrap":
			return Iface{}
		}
	case *TypeV:
		return x.typeMethod(s, v, om.name, args)
	}
	panic(unsup{"opaque method " + om.name})
}

func (x *Exec) typeMethod(s *State, v *TypeV, name string, args []Value) Value {
	switch name {
	case "Name":
		if n, ok := types.Unalias(v.T).(*types.Named); ok {
			return concStr(n.Obj().Name())
		}
		if b, ok := v.T.(*types.Basic); ok {
			return concStr(b.Name())
		}
		return concStr("")
	case "String":
		return concStr(types.TypeString(v.T, func(p *types.Package) string { return p.Name() }))
	case "Kind":
		return x.c.BV(64, uint64(reflKind(v.T)))
	case "Elem":
		switch u := v.T.Underlying().(type) {
		case *types.Pointer:
			return Iface{typeT, &TypeV{u.Elem()}}
		case *types.Slice:
			return Iface{typeT, &TypeV{u.Elem()}}
		}
		x.rtPanic("reflect: Elem of invalid type")
	}
	panic(unsup{"reflect.Type." + name})
}

func reflKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int64:
			return 6
		case types.Uint8:
			return 8
		case types.Uint64:
			return 11
		case types.String:
			return 24
		}
	case *types.Pointer:
		return 22
	case *types.Struct:
		return 25
	case *types.Slice:
		return 23
	case *types.Map:
		return 21
	case *types.Interface:
		return 20
	case *types.Signature:
		return 19
	case *types.Array:
		return 17
	}
	panic(unsup{"reflect kind of " + t.String()})
}

func argStr(a Value) string {
	s, ok := a.(*Str)
	if !ok || s.B != nil {
		panic(unsup{"constant string argument expected"})
	}
	return s.S
}

// ---- inputs ----

func (x *Exec) inName(s *State, base string) string {
	n := s.names[base]
	m := make(map[string]int, len(s.names)+1)
	for k, v := range s.names {
		m[k] = v
	}
	m[base] = n + 1
	s.names = m
	if n == 0 {
		return base
	}
	return base + "#" + itoa(n)
}

func (x *Exec) input(name string, k sym.Kind, w int) *sym.Term {
	if t, ok := x.Inputs[name]; ok {
		return t
	}
	t := x.c.Var(name, k, w)
	x.Inputs[name] = t
	x.InputLst = append(x.InputLst, name)
	return t
}

func inputInt(w int, sg bool) intrinsic {
	return func(x *Exec, s *State, c *callCtx, a []Value) Value {
		t := x.input(x.inName(s, argStr(a[0])), sym.KBV, w)
		t.Signed = sg
		return t
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *State) addSplit(v uint64) {
	s.split = append(append([]int32(nil), s.split...), int32(v))
}

const vhp = "github.com/ndau/ndaumath/verifh/vh."

var intrinsics map[string]intrinsic

func (x *Exec) inputBytes(s *State, name string, n int) []*sym.Term {
	o := make([]*sym.Term, n)
	for i := range o {
		o[i] = x.input(name+"["+itoa(i)+"]", sym.KBV, 8)
	}
	return o
}

func (x *Exec) assume(s *State, c *sym.Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(pathEnd{})
	}
	if v, ok := s.known[c.ID]; ok {
		if !v {
			panic(pathEnd{})
		}
		return
	}
	x.freshen(s, c)
	if s.model == nil || !x.evalBool(s.model, c) {
		r, m := x.feasible(s, c)
		if r == sym.Unsat {
			panic(pathEnd{})
		}
		s.model = m
	}
	x.addConj(s, c)
}

func init() {
	noop := func(x *Exec, s *State, c *callCtx, a []Value) Value { return x.zeroResults(c.fn) }
	intrinsics = map[string]intrinsic{
		vhp + "U8":  inputInt(8, false),
		vhp + "U16": inputInt(16, false),
		vhp + "U32": inputInt(32, false),
		vhp + "U64": inputInt(64, false),
		vhp + "I8":  inputInt(8, true),
		vhp + "I32": inputInt(32, true),
		vhp + "I64": inputInt(64, true),
		vhp + "Int": inputInt(64, true),
		vhp + "Bool": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.input(x.inName(s, argStr(a[0])), sym.KBool, 0)
		},
		vhp + "Bytes": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			n := int(x.concretize(s, a[1].(*sym.Term)))
			nm := x.inName(s, argStr(a[0]))
			return x.newByteSlice(s, x.inputBytes(s, nm, n))
		},
		vhp + "String": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			n := int(x.concretize(s, a[1].(*sym.Term)))
			nm := x.inName(s, argStr(a[0]))
			return x.mkStr(x.inputBytes(s, nm, n))
		},
		vhp + "IntRange": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			lo, hi := int64(a[1].(*sym.Term).C), int64(a[2].(*sym.Term).C)
			nm := argStr(a[0])
			w := 64
			if lo >= 0 {
				w = bits.Len64(uint64(hi))
				if w == 0 {
					w = 1
				}
			}
			n0 := s.names
			nm = x.inName(s, nm)
			_ = n0
			v := x.input(nm, sym.KBV, w)
			if lo < 0 {
				v.Signed = true
				x.assume(s, x.c.And(x.c.Sle(x.c.BV(64, uint64(lo)), v), x.c.Sle(v, x.c.BV(64, uint64(hi)))))
				return v
			}
			t := x.c.Zext(v, 64)
			x.assume(s, x.c.And(x.c.Ule(x.c.BV(64, uint64(lo)), t), x.c.Ule(t, x.c.BV(64, uint64(hi)))))
			return t
		},
		// Pick forks over lo..hi, returning a concrete value on each path
		vhp + "Pick": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			lo, hi := a[1].(*sym.Term).C, a[2].(*sym.Term).C
			nm := argStr(a[0])
			n0 := s.names
			full := x.inName(s, nm)
			v := x.input(full, sym.KBV, 16)
			s.names = n0 // restored until the value is decided
			rng := x.c.And(x.c.Ule(x.c.BV(16, lo), v), x.c.Ule(v, x.c.BV(16, hi)))
			x.assume(s, rng)
			k := x.concretize(s, v)
			s.addSplit(k)
			x.inName(s, nm)
			return x.c.BV(64, k)
		},
		vhp + "Assume": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			x.assume(s, a[0].(*sym.Term))
			return &Tuple{}
		},
		vhp + "Assert": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			x.assert(s, argStr(a[0]), a[1].(*sym.Term))
			return &Tuple{}
		},
		vhp + "Cover": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			x.Covers[argStr(a[0])]++
			return &Tuple{}
		},
		vhp + "Observe": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			v, vt := a[1].(Iface).V, a[1].(Iface).T
			if sl, ok := v.(SliceV); ok {
				v = x.mkStr(x.sliceBytes(s, sl))
			}
			s.obs = append(append([]obsRec(nil), s.obs...), obsRec{argStr(a[0]), v, vt})
			return &Tuple{}
		},
		vhp + "Deep": func(x *Exec, s *State, c *callCtx, a []Value) Value { return x.c.Bool(x.Tier > 0) },
		vhp + "Note": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			x.note(argStr(a[0]))
			return &Tuple{}
		},
		// Split forks on the condition and keeps the halves decided
		vhp + "Split": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			v := x.decide(s, a[0].(*sym.Term))
			s.addSplit(uint64(b2i(v)))
			return x.c.Bool(v)
		},
		vhp + "NoMerge": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			x.noMerge = true
			return nil
		},
		vhp + "Concrete": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			t := a[0].(*sym.Term)
			v := x.concretize(s, t)
			s.addSplit(v)
			return x.c.BV(t.W, v)
		},
		vhp + "Panics": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			fv := a[0].(*FuncV)
			pre := x.fullKey(s)
			s.pruneCaller()
			x.pushFrame(s, fv.Fn, nil, fv.Bind, retMarker, pre, nil)
			return pushed{}
		},

		"errors.New": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			if x.initMode {
				return fallback{}
			}
			return x.newErr(showPanic(a[0]))
		},
		"fmt.Errorf": func(x *Exec, s *State, c *callCtx, a []Value) Value { return x.newErr(showPanic(a[0])) },
		"github.com/pkg/errors.New": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			if x.initMode {
				return fallback{}
			}
			return x.newErr(showPanic(a[0]))
		},
		"github.com/pkg/errors.callers":          noop,
		"github.com/pkg/errors.Errorf":           func(x *Exec, s *State, c *callCtx, a []Value) Value { return x.newErr("errorf") },
		"github.com/pkg/errors.Wrap":             errWrap,
		"github.com/pkg/errors.Wrapf":            errWrap,
		"github.com/pkg/errors.WithStack":        errWrap,
		"github.com/pkg/errors.WithMessage":      errWrap,
		"github.com/tinylib/msgp/msgp.WrapError": errWrap,

		"fmt.Println": noop, "fmt.Printf": noop, "fmt.Print": noop,
		"fmt.Sprintf": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.sprintf(s, argStr(a[0]), x.elems(s, a[1].(SliceV)))
		},
		"fmt.Sprint": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			es := x.elems(s, a[0].(SliceV))
			if len(es) != 1 {
				panic(unsup{"fmt.Sprint"})
			}
			return x.sprintf(s, "%v", es)
		},
		"strconv.FormatInt": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			if a[1].(*sym.Term).C != 10 {
				panic(unsup{"FormatInt base"})
			}
			return x.mkStr(x.fmtInt(s, a[0].(*sym.Term), true, 0, false))
		},
		"strconv.Itoa": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.mkStr(x.fmtInt(s, a[0].(*sym.Term), true, 0, false))
		},
		"strconv.FormatUint": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			if a[1].(*sym.Term).C != 10 {
				panic(unsup{"FormatUint base"})
			}
			return x.mkStr(x.fmtInt(s, a[0].(*sym.Term), false, 0, false))
		},
		"strconv.Quote":       func(x *Exec, s *State, c *callCtx, a []Value) Value { return concStr("\"?\"") },
		"strconv.syntaxError": opaqueErrPtr, "strconv.rangeError": opaqueErrPtr, "strconv.baseError": opaqueErrPtr, "strconv.bitSizeError": opaqueErrPtr,

		"internal/bytealg.IndexByteString": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.indexByte(s, x.bytes(a[0].(*Str)), a[1].(*sym.Term))
		},
		"internal/bytealg.IndexByte": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.indexByte(s, x.sliceBytes(s, a[0].(SliceV)), a[1].(*sym.Term))
		},
		"internal/stringslite.IndexByte": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.indexByte(s, x.bytes(a[0].(*Str)), a[1].(*sym.Term))
		},
		"strings.IndexByte": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.indexByte(s, x.bytes(a[0].(*Str)), a[1].(*sym.Term))
		},
		"strings.Index": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			h, n := x.bytes(a[0].(*Str)), x.bytes(a[1].(*Str))
			r := x.c.BV(64, ^uint64(0))
			if len(n) == 1 {
				return x.indexByte(s, h, n[0])
			}
			for i := len(h) - len(n); i >= 0; i-- {
				var cs []*sym.Term
				for j := range n {
					cs = append(cs, x.c.Eq(h[i+j], n[j]))
				}
				r = x.c.Ite(x.c.AndN(cs...), x.c.BV(64, uint64(i)), r)
			}
			return r
		},
		"strings.Compare": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			p, q := a[0].(*Str), a[1].(*Str)
			return x.c.Ite(x.equal(s, p, q), x.c.BV(64, 0), x.c.Ite(x.strLess(p, q), x.c.BV(64, ^uint64(0)), x.c.BV(64, 1)))
		},
		"internal/bytealg.CompareString": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			p, q := a[0].(*Str), a[1].(*Str)
			return x.c.Ite(x.equal(s, p, q), x.c.BV(64, 0), x.c.Ite(x.strLess(p, q), x.c.BV(64, ^uint64(0)), x.c.BV(64, 1)))
		},
		"internal/bytealg.Compare": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			p, q := x.mkStr(x.sliceBytes(s, a[0].(SliceV))), x.mkStr(x.sliceBytes(s, a[1].(SliceV)))
			return x.c.Ite(x.equal(s, p, q), x.c.BV(64, 0), x.c.Ite(x.strLess(p, q), x.c.BV(64, ^uint64(0)), x.c.BV(64, 1)))
		},
		"bytes.Equal": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.equal(s, x.mkStr(x.sliceBytes(s, a[0].(SliceV))), x.mkStr(x.sliceBytes(s, a[1].(SliceV))))
		},
		"internal/bytealg.CountString": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.countByte(x.bytes(a[0].(*Str)), a[1].(*sym.Term))
		},
		"internal/bytealg.Count": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.countByte(x.sliceBytes(s, a[0].(SliceV)), a[1].(*sym.Term))
		},
		"internal/bytealg.MakeNoZero": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			n := int(x.concretize(s, a[0].(*sym.Term)))
			return x.makeSlice(s, types.Typ[types.Uint8], n, n)
		},
		"strings.ToLower": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.mapCase(s, a[0].(*Str), 'A', 'Z', 32)
		},
		"strings.ToUpper": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.mapCase(s, a[0].(*Str), 'a', 'z', 0xe0)
		},
		"unicode/utf8.ValidString": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.validUTF8(s, x.bytes(a[0].(*Str)))
		},
		"unicode/utf8.Valid": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.validUTF8(s, x.sliceBytes(s, a[0].(SliceV)))
		},
		"(*strings.Builder).copyCheck": noop,
		"strings.Clone":                func(x *Exec, s *State, c *callCtx, a []Value) Value { return a[0] },
		"internal/stringslite.Clone":   func(x *Exec, s *State, c *callCtx, a []Value) Value { return a[0] },
		"github.com/tinylib/msgp/msgp.UnsafeString": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.mkStr(x.sliceBytes(s, a[0].(SliceV)))
		},
		"github.com/tinylib/msgp/msgp.UnsafeBytes": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.newByteSlice(s, x.bytes(a[0].(*Str)))
		},

		"(*sync.Mutex).Lock": noop, "(*sync.Mutex).Unlock": noop, "(*sync.RWMutex).Lock": noop, "(*sync.RWMutex).Unlock": noop,
		"(*sync.RWMutex).RLock": noop, "(*sync.RWMutex).RUnlock": noop,
		"(*sync.Once).Do": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			p := a[0].(Ptr)
			dn := Ptr{Obj: p.Obj, P: x.path(p.P, -1)}
			_ = dn
			key := fmt.Sprint("once", p.Obj, p.P)
			if s.names[key] > 0 || x.base[ObjID(x.intern([]int32{-77, int32(p.Obj)}))] != nil {
				return &Tuple{}
			}
			if x.initMode {
				x.base[ObjID(x.intern([]int32{-77, int32(p.Obj)}))] = &Obj{V: x.c.True}
			} else {
				x.inName(s, key)
			}
			fv := a[1].(*FuncV)
			pre := x.fullKey(s)
			s.pruneCaller()
			x.pushFrame(s, fv.Fn, nil, fv.Bind, retStore, pre, nil)
			return pushed{}
		},
		"math.Float64bits": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return x.c.BV(64, math.Float64bits(a[0].(float64)))
		},
		"math.Pow": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			return math.Pow(a[0].(float64), a[1].(float64))
		},
		"math.Log10":       func(x *Exec, s *State, c *callCtx, a []Value) Value { return math.Log10(a[0].(float64)) },
		"math.Log":         func(x *Exec, s *State, c *callCtx, a []Value) Value { return math.Log(a[0].(float64)) },
		"math.Exp":         func(x *Exec, s *State, c *callCtx, a []Value) Value { return math.Exp(a[0].(float64)) },
		"math.Sqrt":        func(x *Exec, s *State, c *callCtx, a []Value) Value { return math.Sqrt(a[0].(float64)) },
		"math.Ceil":        func(x *Exec, s *State, c *callCtx, a []Value) Value { return math.Ceil(a[0].(float64)) },
		"math.Trunc":       func(x *Exec, s *State, c *callCtx, a []Value) Value { return math.Trunc(a[0].(float64)) },
		"time.runtimeNano": func(x *Exec, s *State, c *callCtx, a []Value) Value { return x.c.BV(64, 1) },
		// time.Parse of constants: executed natively; the result is a UTC time
		"time.Parse": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			l, v := a[0].(*Str), a[1].(*Str)
			if l.B != nil || v.B != nil {
				panic(unsup{"time.Parse of a symbolic string"})
			}
			t, err := time.Parse(l.S, v.S)
			if err != nil {
				return &Tuple{[]Value{&StructV{[]Value{x.c.BV(64, 0), x.c.BV(64, 0), Ptr{}}}, x.newErr(err.Error())}}
			}
			if t.Location() != time.UTC {
				panic(unsup{"time.Parse with a zone"})
			}
			ext := t.Unix() + 62135596800
			return &Tuple{[]Value{&StructV{[]Value{x.c.BV(64, uint64(t.Nanosecond())), x.c.BV(64, uint64(ext)), Ptr{}}}, nilErr()}}
		},
		"math.Floor":     func(x *Exec, s *State, c *callCtx, a []Value) Value { return math.Floor(a[0].(float64)) },
		"math.archFloor": func(x *Exec, s *State, c *callCtx, a []Value) Value { return math.Floor(a[0].(float64)) },

		"math/bits.OnesCount64": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			t := a[0].(*sym.Term)
			if t.IsConst() {
				return x.c.BV(64, uint64(bits.OnesCount64(t.C)))
			}
			return fallback{}
		},
		"math/bits.Mul64": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			p, q := a[0].(*sym.Term), a[1].(*sym.Term)
			if p.IsConst() && q.IsConst() {
				h, l := bits.Mul64(p.C, q.C)
				return &Tuple{[]Value{x.c.BV(64, h), x.c.BV(64, l)}}
			}
			pr := x.c.IMul(x.c.IFromU(p), x.c.IFromU(q))
			two := x.c.Int(new(big.Int).Lsh(big.NewInt(1), 64))
			return &Tuple{[]Value{x.c.IToBV(x.c.IQuo(pr, two), 64), x.c.Mul(p, q)}}
		},
		"math/bits.Div64": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			hi, lo, y := a[0].(*sym.Term), a[1].(*sym.Term), a[2].(*sym.Term)
			if x.decide(s, x.c.Eq(y, x.c.BV(64, 0))) {
				x.rtPanic("integer divide by zero")
			}
			if x.decide(s, x.c.Ule(y, hi)) {
				x.rtPanic("integer overflow")
			}
			two := x.c.Int(new(big.Int).Lsh(big.NewInt(1), 64))
			n := x.c.IAdd(x.c.IMul(two, x.c.IFromU(hi)), x.c.IFromU(lo))
			d := x.c.IFromU(y)
			return &Tuple{[]Value{x.c.IToBV(x.c.IQuo(n, d), 64), x.c.IToBV(x.c.IRem(n, d), 64)}}
		},
		"math/bits.Add64": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			p, q, ci := a[0].(*sym.Term), a[1].(*sym.Term), a[2].(*sym.Term)
			sm := x.c.Add(p, q, ci)
			car := x.c.Or(x.c.Ult(sm, p), x.c.And(x.c.Eq(sm, p), x.c.Ne(ci, x.c.BV(64, 0))))
			return &Tuple{[]Value{sm, x.c.Ite(car, x.c.BV(64, 1), x.c.BV(64, 0))}}
		},

		"runtime.Callers": noop, "runtime.KeepAlive": noop, "runtime.GC": noop,
		"runtime.Caller": noop,
		"reflect.TypeOf": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			iv := a[0].(Iface)
			if iv.T == nil {
				return Iface{}
			}
			return Iface{typeT, &TypeV{iv.T}}
		},
		"reflect.ValueOf": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			iv := a[0].(Iface)
			if iv.T == nil {
				return &RVal{}
			}
			return &RVal{T: iv.T, V: iv.V}
		},
		"(reflect.Value).Kind": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			r := a[0].(*RVal)
			if r.T == nil {
				return x.c.BV(64, 0)
			}
			return x.c.BV(64, uint64(reflKind(r.T)))
		},
		"(reflect.Value).Type": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			r := a[0].(*RVal)
			if r.T == nil {
				x.rtPanic("reflect: call of reflect.Value.Type on zero Value")
			}
			return Iface{typeT, &TypeV{r.T}}
		},
		"reflect.Indirect": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			r := a[0].(*RVal)
			p, ok := r.T.Underlying().(*types.Pointer)
			if !ok {
				return r
			}
			pv := r.V.(Ptr)
			if pv.Obj == 0 {
				return &RVal{}
			}
			return &RVal{T: p.Elem(), V: x.load(s, pv)}
		},
		"reflect.New": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			iv := a[0].(Iface)
			if iv.T == nil {
				x.rtPanic("reflect: New(nil)")
			}
			t := iv.V.(*TypeV).T
			return &RVal{T: types.NewPointer(t), V: Ptr{Obj: x.newObj(s, x.zero(t), 0)}}
		},
		"(reflect.Value).Interface": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			r := a[0].(*RVal)
			if r.T == nil {
				x.rtPanic("reflect: Interface of zero Value")
			}
			return Iface{r.T, r.V}
		},

		"crypto/sha256.Sum256": hashIntr("sha256", 32),
		"crypto/sha256.Sum224": hashIntr("sha224", 28),
		"crypto/sha512.Sum512": hashIntr("sha512", 64),
		"crypto/rand.Read": func(x *Exec, s *State, c *callCtx, a []Value) Value {
			sl := a[0].(SliceV)
			var vs []Value
			for i := 0; i < sl.Len; i++ {
				vs = append(vs, x.c.Var(x.freshName(s, "rand"), sym.KBV, 8))
			}
			x.setElems(s, sl, 0, vs)
			x.UFUsed = true
			return &Tuple{[]Value{x.c.BV(64, uint64(sl.Len)), nilErr()}}
		},
	}
}

var moreIntrinsics = map[string]intrinsic{}

func errWrap(x *Exec, s *State, c *callCtx, a []Value) Value {
	iv := a[0].(Iface)
	if iv.T == nil {
		return iv
	}
	return x.newErr("wrapped")
}

// opaqueErrPtr models helper constructors returning *strconv.NumError-like pointers.
func opaqueErrPtr(x *Exec, s *State, c *callCtx, a []Value) Value { return fallback{} }

func (x *Exec) indexByte(s *State, h []*sym.Term, b *sym.Term) Value {
	r := x.c.BV(64, ^uint64(0))
	for i := len(h) - 1; i >= 0; i-- {
		r = x.c.Ite(x.c.Eq(h[i], b), x.c.BV(64, uint64(i)), r)
	}
	return r
}

func (x *Exec) countByte(h []*sym.Term, b *sym.Term) Value {
	r := x.c.BV(64, 0)
	for _, t := range h {
		r = x.c.Add(r, x.c.Ite(x.c.Eq(t, b), x.c.BV(64, 1), x.c.BV(64, 0)))
	}
	return r
}

func (x *Exec) validUTF8(s *State, b []*sym.Term) Value {
	c := x.c
	var asc []*sym.Term
	for _, t := range b {
		asc = append(asc, c.Ult(t, c.BV(8, 0x80)))
	}
	if x.decide(s, c.AndN(asc...)) {
		return c.True
	}
	// valid[i]: suffix i is valid
	n := len(b)
	v := make([]*sym.Term, n+4)
	for i := range v {
		v[i] = c.False
	}
	v[n] = c.True
	in := func(t *sym.Term, lo, hi uint64) *sym.Term {
		return c.And(c.Ule(c.BV(8, lo), t), c.Ule(t, c.BV(8, hi)))
	}
	cont := func(i int) *sym.Term {
		if i >= n {
			return c.False
		}
		return in(b[i], 0x80, 0xbf)
	}
	rng := func(i int, lo, hi uint64) *sym.Term {
		if i >= n {
			return c.False
		}
		return in(b[i], lo, hi)
	}
	for i := n - 1; i >= 0; i-- {
		v[i] = c.OrN(
			c.And(c.Ult(b[i], c.BV(8, 0x80)), v[i+1]),
			c.AndN(in(b[i], 0xc2, 0xdf), cont(i+1), v[i+2]),
			c.AndN(in(b[i], 0xe0, 0xef), c.Ite(c.Eq(b[i], c.BV(8, 0xe0)), rng(i+1, 0xa0, 0xbf), c.Ite(c.Eq(b[i], c.BV(8, 0xed)), rng(i+1, 0x80, 0x9f), cont(i+1))), cont(i+2), v[i+3]),
			c.AndN(in(b[i], 0xf0, 0xf4), c.Ite(c.Eq(b[i], c.BV(8, 0xf0)), rng(i+1, 0x90, 0xbf), c.Ite(c.Eq(b[i], c.BV(8, 0xf4)), rng(i+1, 0x80, 0x8f), cont(i+1))), cont(i+2), cont(i+3), func() *sym.Term {
				if i+4 <= n {
					return v[i+4]
				}
				return c.False
			}()),
		)
	}
	return v[0]
}

// mapCase implements ToLower/ToUpper for ASCII content; other content is interpreted.
func (x *Exec) mapCase(s *State, v *Str, lo, hi byte, delta uint64) Value {
	if v.B == nil {
		if delta == 32 {
			return concStr(strings.ToLower(v.S))
		}
		return concStr(strings.ToUpper(v.S))
	}
	c := x.c
	var asc []*sym.Term
	for _, t := range v.B {
		asc = append(asc, c.Ult(t, c.BV(8, 0x80)))
	}
	if !x.decide(s, c.AndN(asc...)) {
		return fallback{}
	}
	o := make([]*sym.Term, len(v.B))
	for i, t := range v.B {
		in := c.And(c.Ule(c.BV(8, uint64(lo)), t), c.Ule(t, c.BV(8, uint64(hi))))
		o[i] = c.Ite(in, c.Add(t, c.BV(8, delta)), t)
	}
	return x.mkStr(o)
}

// ---- hashes as uninterpreted functions ----

func concOf(b []*sym.Term) ([]byte, bool) {
	o := make([]byte, len(b))
	for i, t := range b {
		if !t.IsConst() {
			return nil, false
		}
		o[i] = byte(t.C)
	}
	return o, true
}

func nativeHash(name string, in []byte) []byte {
	switch {
	case name == "sha256":
		h := sha256.Sum256(in)
		return h[:]
	case name == "sha224":
		h := sha256.Sum224(in)
		return h[:]
	case name == "sha512":
		h := sha512.Sum512(in)
		return h[:]
	case name == "hmac-sha512":
		return nativeHMAC512(in)
	}
	return nil
}

// uf applies the uninterpreted function name to in, giving n output bytes.
func (x *Exec) uf(s *State, name string, in []*sym.Term, n int) []*sym.Term {
	cs := x.ufs[name]
	for _, k := range cs {
		if len(k.in) == len(in) && len(k.out) == n {
			same := true
			for i := range in {
				if in[i] != k.in[i] {
					same = false
					break
				}
			}
			if same {
				return k.out
			}
		}
	}
	var out []*sym.Term
	if cb, ok := concOf(in); ok {
		if h := nativeHash(name, cb); h != nil {
			out = x.concBytes(h)
		}
	}
	if out == nil {
		x.UFUsed = true
		id := len(cs)
		if strings.HasPrefix(name, "hmac") {
			out = x.words(fmt.Sprintf("%s.%d", name, id), n/8)
		}
		for i := len(out); i < n; i++ {
			out = append(out, x.c.Var(fmt.Sprintf("%s.%d[%d]", name, id, i), sym.KBV, 8))
		}
	}
	x.instance(out, in)
	for _, k := range cs {
		if len(k.in) != len(in) || len(k.out) != n {
			continue
		}
		ax := x.c.Implies(x.eqTerms(in, k.in), x.eqTerms(out, k.out))
		if !ax.IsTrue() {
			x.axioms = append(x.axioms, ax)
		}
	}
	x.ufs[name] = append(cs, ufCall{in, out})
	return out
}

func hashIntr(name string, n int) intrinsic {
	return func(x *Exec, s *State, c *callCtx, a []Value) Value {
		o := x.uf(s, name, x.sliceBytes(s, a[0].(SliceV)), n)
		e := make([]Value, n)
		for i := range e {
			e[i] = o[i]
		}
		return &ArrayV{e}
	}
}

// RVal is a reflect.Value.
type RVal struct {
	T types.Type
	V Value
}

// ---- formatting ----

// fmtInt renders an integer in decimal, forking on sign and digit count.
func (x *Exec) fmtInt(s *State, t *sym.Term, sg bool, minw int, zero bool) []*sym.Term {
	c := x.c
	if t.IsConst() {
		var o string
		if sg {
			o = strconv.FormatInt(signed(t.C, t.W), 10)
		} else {
			o = strconv.FormatUint(t.C, 10)
		}
		if minw > 0 {
			f := "%*s"
			if zero {
				n := minw - len(o)
				if n > 0 {
					if o[0] == '-' {
						o = "-" + strings.Repeat("0", n) + o[1:]
					} else {
						o = strings.Repeat("0", n) + o
					}
				}
			} else {
				o = fmt.Sprintf(f, minw, o)
			}
		}
		return x.concBytes([]byte(o))
	}
	w := t.W
	neg := false
	mag := t
	if sg && x.decide(s, c.Slt(t, c.BV(w, 0))) {
		neg = true
		mag = c.Neg(t)
	}
	if w < 64 {
		mag = c.Zext(mag, 64)
	}
	nd := 1
	p := uint64(10)
	for nd < 20 {
		if x.decide(s, c.Ult(mag, c.BV(64, p))) {
			break
		}
		nd++
		if nd == 20 {
			break
		}
		p *= 10
	}
	// digits
	key := fmt.Sprintf("dig:%d:%d", mag.ID, nd)
	ds := make([]*sym.Term, nd) // most significant first
	parts := make([]*sym.Term, nd)
	pw := uint64(1)
	for i := nd - 1; i >= 0; i-- {
		ds[i] = c.Var(fmt.Sprintf("%s:%d", key, i), sym.KBV, 4)
		parts[i] = c.Mul(c.BV(64, pw), c.Zext(ds[i], 64))
		pw *= 10
	}
	eq := c.Eq(c.Add(parts...), mag)
	if v, ok := s.known[eq.ID]; !ok || !v {
		// extend the model
		var nm sym.Model
		if s.model != nil {
			nm = sym.Model{}
			for k, v := range s.model {
				nm[k] = v
			}
			mv := new(big.Int).Set(x.evalTerm(s.model, mag))
			for i := nd - 1; i >= 0; i-- {
				r := new(big.Int)
				mv.QuoRem(mv, big.NewInt(10), r)
				nm[ds[i]] = r
			}
		}
		for i := range ds {
			x.addConj(s, c.Ule(ds[i], c.BV(4, 9)))
		}
		if nd == 20 {
			x.addConj(s, c.Ule(ds[0], c.BV(4, 1)))
		}
		x.addConj(s, eq)
		if nd > 1 {
			x.addConj(s, c.Not(c.Eq(ds[0], c.BV(4, 0))))
		}
		s.model = nm
	}
	var o []*sym.Term
	for _, d := range ds {
		o = append(o, c.Add(c.Zext(d, 8), c.BV(8, '0')))
	}
	pad := minw - len(o)
	if neg {
		pad--
	}
	var out []*sym.Term
	if !zero {
		for ; pad > 0; pad-- {
			out = append(out, c.BV(8, ' '))
		}
	}
	if neg {
		out = append(out, c.BV(8, '-'))
	}
	for ; pad > 0; pad-- {
		out = append(out, c.BV(8, '0'))
	}
	return append(out, o...)
}

func (x *Exec) sprintf(s *State, f string, args []Value) Value {
	var out []*sym.Term
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, x.c.BV(8, uint64(f[i])))
			continue
		}
		i++
		zero := false
		plus := false
		for i < len(f) && (f[i] == '0' || f[i] == '+' || f[i] == '#') {
			if f[i] == '0' {
				zero = true
			} else {
				plus = true
			}
			i++
		}
		wd := 0
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			wd = wd*10 + int(f[i]-'0')
			i++
		}
		if f[i] == '%' {
			out = append(out, x.c.BV(8, '%'))
			continue
		}
		if ai >= len(args) {
			panic(unsup{"sprintf: missing argument"})
		}
		iv := args[ai].(Iface)
		ai++
		out = append(out, x.fmtVerb(s, f[i], zero, plus, wd, iv)...)
	}
	return x.mkStr(out)
}

func (x *Exec) fmtVerb(s *State, verb byte, zero, plus bool, wd int, iv Iface) []*sym.Term {
	if iv.T == nil {
		return x.concBytes([]byte("<nil>"))
	}
	switch v := iv.V.(type) {
	case *sym.Term:
		if _, sg, ok := basicInfo(iv.T); ok && (verb == 'd' || verb == 'v') && !plus {
			if verb == 'v' && hasMethod(iv.T, "String") {
				break
			}
			return x.fmtInt(s, v, sg, wd, zero)
		}
		if verb == 'x' && v.IsConst() {
			return x.concBytes([]byte(fmt.Sprintf("%x", v.C)))
		}
		if verb == 'x' && v.W == 8 && wd == 0 {
			tab := make([]uint64, 16)
			for i := range tab {
				tab[i] = uint64("0123456789abcdef"[i])
			}
			lo := x.c.SelectConst(tab, x.c.Extract(v, 3, 0), 8)
			if x.decide(s, x.c.Ult(v, x.c.BV(8, 16))) {
				return []*sym.Term{lo}
			}
			return []*sym.Term{x.c.SelectConst(tab, x.c.Extract(v, 7, 4), 8), lo}
		}
		if verb == 'c' {
			return x.encodeRune(s, x.c.Zext(v, 32))
		}
	case *Str:
		if (verb == 's' || verb == 'v') && wd == 0 && !hasMethod(iv.T, "String") && !hasMethod(iv.T, "Error") {
			return x.bytes(v)
		}
		if verb == 'q' && v.B == nil {
			return x.concBytes([]byte(strconv.Quote(v.S)))
		}
	case SliceV:
		if verb == 's' {
			return x.sliceBytes(s, v)
		}
		if verb == 'x' {
			c := x.c
			tab := make([]uint64, 16)
			for i := range tab {
				tab[i] = uint64("0123456789abcdef"[i])
			}
			var o []*sym.Term
			for _, b := range x.sliceBytes(s, v) {
				o = append(o, c.SelectConst(tab, c.Extract(b, 7, 4), 8), c.SelectConst(tab, c.Extract(b, 3, 0), 8))
			}
			return o
		}
	case *ErrV:
		return x.concBytes([]byte("error"))
	}
	panic(unsup{fmt.Sprintf("fmt verb %%%c of %s", verb, iv.T)})
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, name) != nil
}
