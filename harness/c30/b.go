package c30

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"io"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
)

func compressed(x, y *big.Int) []byte {
	p := btcec.PublicKey{Curve: btcec.S256(), X: x, Y: y}
	return p.SerializeCompressed()
}

// CheckPublicChild: the public child is what BIP-32 prescribes.
func CheckPublicChild() {
	vh.NoMerge()
	pub := append([]byte{2 + vh.U8("odd")&1}, common.Words("x", 32)...)
	point, perr := btcec.ParsePubKey(pub, btcec.S256())
	chain := common.Words("chain", 32)
	fp := vh.Bytes("fp", 3)
	depth := vh.U8("depth")
	k := key.NewExtendedKey(append([]byte(nil), pub...), append([]byte(nil), chain...), fp, depth, vh.U32("num"), false)
	i := vh.U32("i")
	c, err := k.Child(i)
	if depth == 255 || i >= 0x80000000 || perr != nil {
		vh.Assert("too deep, hardened or not a point", err != nil && c == nil)
		return
	}
	idx := []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}
	m := mac(chain, append(append([]byte(nil), pub...), idx...))
	il := new(big.Int).SetBytes(m[:32])
	if il.Cmp(n) >= 0 || il.Sign() == 0 {
		vh.Assert("left half out of range", err != nil && c == nil)
		return
	}
	x1, y1 := btcec.S256().ScalarBaseMult(m[:32])
	x, y := btcec.S256().Add(x1, y1, point.X, point.Y)
	if x.Sign() == 0 && y.Sign() == 0 {
		vh.Assert("point at infinity", err != nil && c == nil)
		return
	}
	vh.Assert("derives", err == nil)
	if err != nil {
		return
	}
	vh.Cover("child")
	vh.Assert("public", !c.IsPrivate())
	vh.Assert("depth", c.Depth() == depth+1)
	vh.Assert("the sum of the points", bytes.Equal(c.Bytes(), compressed(x, y)) && bytes.Equal(c.PubKeyBytes(), c.Bytes()))
	h := sha256.Sum256(pub)
	f := b32.Checksum24(h[:])
	vh.Assert("parent fingerprint", c.ParentFingerprint() == uint32(f[0])<<16|uint32(f[1])<<8|uint32(f[2]))
	s, err := c.SPubKey()
	vh.Assert("converts", err == nil)
	if err != nil {
		return
	}
	e := s.ExtraBytes()
	vh.Assert("extra length", len(e) == 40)
	vh.Assert("index recorded", bytes.Equal(e[4:8], idx))
	vh.Assert("chain code", bytes.Equal(e[8:], m[32:]))
}

// CheckMaster: the master key is the HMAC of the seed.
func CheckMaster() {
	vh.NoMerge()
	l := vh.Pick("len", 0, 80)
	seed := vh.Bytes("seed", l)
	m := mac([]byte("ndau seed"), seed)
	v := new(big.Int).SetBytes(m[:32])
	ok := l >= 16 && l <= 64
	if ok {
		ok = v.Sign() > 0 && v.Cmp(n) < 0
	}
	il, ir, err := bip32.NewMaster(seed)
	vh.Assert("bip32: error exactly for bad seeds", (err == nil) == ok)
	k, err := key.NewMaster(seed)
	vh.Assert("key: error exactly for bad seeds", (err == nil) == ok)
	if !ok || err != nil {
		vh.Assert("no key from a bad seed", k == nil)
		return
	}
	vh.Assert("bip32: halves", bytes.Equal(il[:], m[:32]) && bytes.Equal(ir[:], m[32:]))
	vh.Assert("key bytes", bytes.Equal(k.Bytes(), m[:32]))
	vh.Assert("private root", k.IsPrivate() && k.Depth() == 0 && k.ParentFingerprint() == 0)
	s, err := k.SPrivKey()
	vh.Assert("converts", err == nil)
	if err == nil {
		vh.Assert("extra", bytes.Equal(s.ExtraBytes(), append(make([]byte, 8), m[32:]...)))
	}
	x, y := btcec.S256().ScalarBaseMult(m[:32])
	vh.Assert("public key", bytes.Equal(k.PubKeyBytes(), compressed(x, y)))
}

// source is a random source with limited supply, handed out in two pieces.
type source struct {
	data  []byte
	first int
	calls int
}

var errDry = errors.New("dry")

func (s *source) Read(p []byte) (int, error) {
	s.calls++
	if len(s.data) == 0 {
		return 0, errDry
	}
	m := len(p)
	if s.calls == 1 && m > s.first {
		m = s.first
	}
	c := copy(p[:m], s.data)
	s.data = s.data[c:]
	return c, nil
}

var _ io.Reader = (*source)(nil)

// CheckSeed: seeds have the length asked for and come from the source alone.
func CheckSeed() {
	l := vh.Pick("len", 0, 70)
	have := vh.Pick("have", 0, 1)*8 + l - 4
	if have < 0 {
		have = 0
	}
	data := vh.Bytes("data", have)
	src := &source{data: data, first: 5}
	s, err := bip32.GenerateSeed(uint8(l), src)
	if l < 16 || l > 64 {
		vh.Assert("length out of range", err != nil && s == nil)
		return
	}
	if have < l {
		vh.Assert("a source that fails is an error", err != nil)
		return
	}
	vh.Assert("no error", err == nil)
	vh.Assert("length", len(s) == l)
	vh.Assert("bytes of the source", bytes.Equal(s, data[:l]))
}

// CheckSeedLen: every other length is refused.
func CheckSeedLen() {
	l := vh.U8("l")
	if l >= 16 && l <= 64 {
		return
	}
	_, err := bip32.GenerateSeed(l, nil)
	vh.Assert("bip32 refuses", err != nil)
	_, err = key.GenerateSeed(l)
	vh.Assert("key refuses", err != nil)
}
