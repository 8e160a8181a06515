package exec

import (
	"crypto/hmac"
	"crypto/sha512"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

// hash.Hash objects: the digest is an uninterpreted function of the bytes written.

var hashT = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("verif", "verif"), "opaqueHash", nil), types.NewStruct(nil, nil), nil))

// HashV is the state of a hash object.
type HashV struct {
	alg  string
	n    int
	blk  int
	key  []*sym.Term
	data []*sym.Term
}

func newHash(alg string, n, blk int) intrinsic {
	return func(x *Exec, s *State, c *callCtx, a []Value) Value {
		return Iface{hashT, Ptr{Obj: x.newObj(s, &HashV{alg: alg, n: n, blk: blk}, 0)}}
	}
}

func hashOfCtor(fn *ssa.Function) (string, int, int) {
	switch n := fnName(fn); n {
	case "crypto/sha256.New":
		return "sha256", 32, 64
	case "crypto/sha256.New224":
		return "sha224", 28, 64
	case "crypto/sha512.New":
		return "sha512", 64, 128
	case "crypto/sha1.New":
		return "sha1", 20, 64
	}
	panic(unsup{"hash constructor " + fn.String()})
}

func (x *Exec) hashMethod(s *State, p Ptr, name string, args []Value) Value {
	h, ok := x.loadAt(s, p.Obj, nil).(*HashV)
	if !ok {
		panic(unsup{"hash state"})
	}
	switch name {
	case "Write":
		b := x.sliceBytes(s, args[1].(SliceV))
		n := *h
		n.data = append(append([]*sym.Term(nil), h.data...), b...)
		x.storeAt(s, p.Obj, nil, &n)
		return &Tuple{[]Value{x.c.BV(64, uint64(len(b))), nilErr()}}
	case "Sum":
		var o []*sym.Term
		if strings.HasPrefix(h.alg, "hmac") {
			in := append(append([]*sym.Term{x.c.BV(8, uint64(len(h.key)))}, h.key...), h.data...)
			o = x.uf(s, h.alg, in, h.n)
		} else {
			o = x.uf(s, h.alg, h.data, h.n)
		}
		return x.appendVals(s, args[1].(SliceV), x.newByteSlice(s, o))
	case "Reset":
		n := *h
		n.data = nil
		x.storeAt(s, p.Obj, nil, &n)
		return &Tuple{}
	case "Size":
		return x.c.BV(64, uint64(h.n))
	case "BlockSize":
		return x.c.BV(64, uint64(h.blk))
	}
	panic(unsup{"hash method " + name})
}

func nativeHMAC512(in []byte) []byte {
	k := int(in[0])
	m := hmac.New(sha512.New, in[1:1+k])
	m.Write(in[1+k:])
	return m.Sum(nil)
}

func init() {
	moreIntrinsics["crypto/sha256.New"] = newHash("sha256", 32, 64)
	moreIntrinsics["crypto/sha256.New224"] = newHash("sha224", 28, 64)
	moreIntrinsics["crypto/sha512.New"] = newHash("sha512", 64, 128)
	moreIntrinsics["crypto/hmac.New"] = func(x *Exec, s *State, c *callCtx, a []Value) Value {
		fv, _ := a[0].(*FuncV)
		if fv == nil || fv.Fn == nil {
			x.rtPanic("nil hash constructor")
		}
		alg, n, blk := hashOfCtor(fv.Fn)
		k := append([]*sym.Term(nil), x.sliceBytes(s, a[1].(SliceV))...)
		if len(k) > 255 {
			panic(unsup{"long hmac key"})
		}
		return Iface{hashT, Ptr{Obj: x.newObj(s, &HashV{alg: "hmac-" + alg, n: n, blk: blk, key: k}, 0)}}
	}
	moreIntrinsics["github.com/ndau/ndaumath/verifh/vh/hmac.New"] = moreIntrinsics["crypto/hmac.New"]
}
