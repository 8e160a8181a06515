package c30

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
)

var n = btcec.S256().N

func mac(k, data []byte) []byte {
	h := hmac.New(sha512.New, k)
	h.Write(data)
	return h.Sum(nil)
}

// private is an arbitrary extended private key.
func private() (k *key.ExtendedKey, d, chain, fp []byte, depth byte) {
	d = common.Words("key", 32)
	v := new(big.Int).SetBytes(d)
	vh.Assume(v.Sign() > 0 && v.Cmp(n) < 0)
	chain = common.Words("chain", 32)
	fp = vh.Bytes("fp", 3)
	depth = vh.U8("depth")
	k = key.NewExtendedKey(append([]byte(nil), d...), append([]byte(nil), chain...), append([]byte(nil), fp...), depth, vh.U32("num"), true)
	return
}

// CheckPrivateChild: the private child is what BIP-32 prescribes.
func CheckPrivateChild() {
	vh.NoMerge()
	k, d, chain, _, depth := private()
	i := vh.U32("i")
	hard := i >= 0x80000000
	pub := bip32.PrivateToPublic(d)
	idx := []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}
	var data []byte
	if hard {
		data = append(append([]byte{0}, d...), idx...)
	} else {
		data = append(append([]byte(nil), pub...), idx...)
	}
	m := mac(chain, data)
	il := new(big.Int).SetBytes(m[:32])
	want := new(big.Int).Add(il, new(big.Int).SetBytes(d))
	want.Mod(want, n)
	bad := il.Cmp(n) >= 0 || il.Sign() == 0 || want.Sign() == 0
	c, err := k.Child(i)
	if depth == 255 {
		vh.Assert("too deep", err != nil)
		return
	}
	vh.Assert("error exactly for invalid keys", (err != nil) == bad)
	if err != nil {
		return
	}
	vh.Cover("child")
	vh.Assert("private", c.IsPrivate())
	vh.Assert("depth", c.Depth() == depth+1)
	vh.Assert("always 32 bytes", len(c.Bytes()) == 32)
	vh.Assert("key value", new(big.Int).SetBytes(c.Bytes()).Cmp(want) == 0)
	h := sha256.Sum256(pub)
	f := b32.Checksum24(h[:])
	vh.Assert("parent fingerprint", c.ParentFingerprint() == uint32(f[0])<<16|uint32(f[1])<<8|uint32(f[2]))
	s, err := c.SPrivKey()
	vh.Assert("converts", err == nil)
	e := s.ExtraBytes()
	vh.Assert("extra length", len(e) == 40)
	vh.Assert("index recorded", bytes.Equal(e[4:8], idx))
	vh.Assert("chain code", bytes.Equal(e[8:], m[32:]))
}
