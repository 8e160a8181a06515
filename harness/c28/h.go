package c28

import (
	"bytes"
	"crypto/sha256"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
	"golang.org/x/crypto/ed25519"
)

func algorithm(i int) signature.Algorithm {
	switch i {
	case 1:
		return signature.Ed25519
	case 2:
		return signature.Secp256k1
	case 3:
		return nil
	}
	return signature.Null
}

func id(i int) int {
	if i == 3 {
		return 0
	}
	return i
}

func pub(i int, b []byte) signature.PublicKey {
	k, err := signature.RawPublicKey(algorithm(i), append([]byte(nil), b...), vh.Bytes("extra", 2))
	vh.Assert("public key", err == nil)
	return *k
}

// msgLen includes the sizes of hashes and blocks.
func msgLen() int {
	return []int{0, 1, 2, 31, 32, 33, 64, 65}[vh.Pick("message", 0, 7)]
}

func pubSize(i int) int { return []int{0, 32, 33, 0}[i] }
func pvtSize(i int) int { return []int{0, 64, 32, 0}[i] }

// verdict is what the algorithm itself says.
func verdict(i int, key, msg, sig []byte) bool {
	switch i {
	case 1:
		return ed25519.Verify(ed25519.PublicKey(key), msg, sig)
	case 2:
		p, err := btcec.ParsePubKey(key, btcec.S256())
		if err != nil {
			return false
		}
		s, err := btcec.ParseSignature(sig, btcec.S256())
		if err != nil {
			return false
		}
		h := sha256.Sum256(msg)
		return s.Verify(h[:], p)
	}
	return false
}

// CheckVerify: the verdict is the algorithm's on exactly these bytes, and no
// other algorithm's signature is ever good.
func CheckVerify() {
	ka, sa := vh.Pick("keyAlgorithm", 0, 3), vh.Pick("sigAlgorithm", 0, 3)
	n := msgLen()
	l := 0
	switch sa {
	case 1:
		l = 64
	case 2:
		l = []int{0, 1, 8, 70, 71, 72}[vh.Pick("len", 0, 5)]
	}
	kb, msg, sb := vh.Bytes("key", pubSize(ka)), vh.Bytes("msg", n), vh.Bytes("sig", l)
	k := pub(ka, kb)
	s, err := signature.RawSignature(algorithm(sa), append([]byte(nil), sb...))
	vh.Assert("signature", err == nil)
	got := k.Verify(append([]byte(nil), msg...), *s)
	vh.Assert("same from the signature", s.Verify(append([]byte(nil), msg...), k) == got)
	if id(ka) != id(sa) || id(ka) == 0 {
		vh.Assert("never good", !got)
		return
	}
	vh.Assert("the algorithm's verdict", got == verdict(ka, kb, msg, sb))
	vh.Assert("inputs untouched", bytes.Equal(k.KeyBytes(), kb) && bytes.Equal(s.Bytes(), sb))
}

// CheckZeroKey: keys and signatures that were never filled in verify nothing.
func CheckZeroKey() {
	var k signature.PublicKey
	var s signature.Signature
	msg := vh.Bytes("msg", msgLen())
	vh.Assert("zero", !k.Verify(msg, s))
	a := vh.Pick("algorithm", 0, 2)
	t, err := signature.RawSignature(algorithm(a), vh.Bytes("sig", []int{0, 64, 71}[a]))
	vh.Assert("signature", err == nil)
	vh.Assert("zero key", !k.Verify(msg, *t))
	vh.Assert("zero signature", !pub(a, vh.Bytes("key", pubSize(a))).Verify(msg, s))
	var p signature.PrivateKey
	e := p.Sign(msg)
	vh.Assert("null signature", len(e.Bytes()) == 0 && !e.Verify(msg, k))
}

// CheckSignEd: an ed25519 signature is the algorithm's own, and verifies.
func CheckSignEd() {
	n := msgLen()
	kb, msg := vh.Bytes("key", 64), vh.Bytes("msg", n)
	p, err := signature.RawPrivateKey(signature.Ed25519, append([]byte(nil), kb...), vh.Bytes("extra", 2))
	vh.Assert("private key", err == nil)
	s := p.Sign(append([]byte(nil), msg...))
	vh.Assert("algorithm", signature.SameAlgorithm(s.Algorithm(), signature.Ed25519))
	vh.Assert("signs these bytes", bytes.Equal(s.Bytes(), ed25519.Sign(ed25519.PrivateKey(kb), msg)))
	vh.Assert("keeps the key", bytes.Equal(p.KeyBytes(), kb))
}

// CheckSignEC: a secp256k1 signature is of the message's SHA-256 under this
// key, and verifies under the matching public key.
func CheckSignEC() {
	n := msgLen()
	kb, msg := common.Words("key", 32), vh.Bytes("msg", n)
	v := new(big.Int).SetBytes(kb)
	vh.Assume(v.Sign() > 0 && v.Cmp(btcec.S256().N) < 0)
	p, err := signature.RawPrivateKey(signature.Secp256k1, append([]byte(nil), kb...), vh.Bytes("extra", 2))
	vh.Assert("private key", err == nil)
	s := p.Sign(append([]byte(nil), msg...))
	vh.Assert("algorithm", signature.SameAlgorithm(s.Algorithm(), signature.Secp256k1))
	ec, ecPub := btcec.PrivKeyFromBytes(btcec.S256(), kb)
	h := sha256.Sum256(msg)
	want, err := ec.Sign(h[:])
	if err != nil {
		return
	}
	vh.Assert("signs these bytes", bytes.Equal(s.Bytes(), want.Serialize()))
	vh.Assert("keeps the key", bytes.Equal(p.KeyBytes(), kb))
	vh.Assert("verifies", pub(2, ecPub.SerializeCompressed()).Verify(msg, s))
}

// CheckPrefix: the prefix test has no false negatives, and the generic parser
// gives the kind the prefix names.
func CheckPrefix() {
	n := vh.Pick("n", 0, 12)
	s := vh.String("s", n)
	for i := 4; i < n; i++ {
		vh.Assume(s[i] < 0x80)
	}
	pvt := n >= 4 && s[:4] == "npvt"
	pub := n >= 4 && s[:4] == "npub"
	vh.Assert("maybe private", signature.MaybePrivate(s) == pvt)
	vh.Assert("maybe public", signature.MaybePublic(s) == pub)
	k, err := signature.ParseKey(s)
	if !pvt && !pub {
		vh.Assert("neither", err != nil)
		return
	}
	vh.Assert("private", signature.IsPrivate(k) == pvt)
	vh.Assert("public", signature.IsPublic(k) == pub)
}

// CheckRawSizes: raw constructors accept exactly the algorithm's sizes.
func CheckRawSizes() {
	a := vh.Pick("algorithm", 0, 3)
	n := vh.Pick("n", 0, 70)
	b := vh.Bytes("b", n)
	_, err := signature.RawPublicKey(algorithm(a), b, nil)
	vh.Assert("public size", (err == nil) == (n == pubSize(a)))
	_, err = signature.RawPrivateKey(algorithm(a), b, nil)
	vh.Assert("private size", (err == nil) == (n == pvtSize(a)))
	_, err = signature.RawSignature(algorithm(a), b)
	vh.Assert("signature size", (err == nil) == (a == 2 || n == []int{0, 64, 0, 0}[a]))
}
