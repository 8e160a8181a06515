package c29

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
)

func cat(a ...[]byte) []byte {
	var o []byte
	for _, b := range a {
		o = append(o, b...)
	}
	return o
}

type fields struct {
	key, chain, fp []byte
	depth          byte
	num            uint32
	private        bool
}

// subject is an extended key with arbitrary fields.
func subject() (*key.ExtendedKey, fields) {
	var f fields
	f.private = vh.Split(vh.Bool("private"))
	n := 33
	if f.private {
		n = 32
	}
	f.key, f.chain, f.fp = vh.Bytes("key", n), vh.Bytes("chain", 32), vh.Bytes("fp", 3)
	f.depth, f.num = vh.U8("depth"), vh.U32("num")
	return key.NewExtendedKey(cat(f.key), cat(f.chain), cat(f.fp), f.depth, f.num, f.private), f
}

// other is an extended key used before.
func other() *key.ExtendedKey {
	return key.NewExtendedKey(vh.Bytes("okey", 32), vh.Bytes("ochain", 32), vh.Bytes("ofp", 3), vh.U8("odepth"), vh.U32("onum"), true)
}

// extra is the documented layout of an extended key's extra data.
func extra(f fields) []byte {
	var num [4]byte
	binary.BigEndian.PutUint32(num[:], f.num)
	return cat([]byte{f.depth}, f.fp, num[:], f.chain)
}

func has(k *key.ExtendedKey, f fields) {
	vh.Assert("key bytes", bytes.Equal(k.Bytes(), f.key))
	vh.Assert("privacy", k.IsPrivate() == f.private)
	vh.Assert("depth", k.Depth() == f.depth)
	fp := uint32(f.fp[0])<<16 | uint32(f.fp[1])<<8 | uint32(f.fp[2])
	vh.Assert("fingerprint", k.ParentFingerprint() == fp)
	s, err := k.AsSignatureKey()
	vh.Assert("is a key", err == nil)
	if err != nil {
		return
	}
	vh.Assert("chain code and child number", bytes.Equal(s.ExtraBytes(), extra(f)))
}

// CheckSignatureKey: conversion to a signature key and back keeps every field.
func CheckSignatureKey() {
	used := vh.Split(vh.Bool("used"))
	more := vh.Pick("more", 0, 3)
	k, f := subject()
	s, err := k.AsSignatureKey()
	vh.Assert("converts", err == nil && s != nil)
	if err != nil || s == nil {
		return
	}
	vh.Assert("kind", signature.IsPrivate(s) == f.private && signature.IsPublic(s) == !f.private)
	vh.Assert("algorithm", signature.SameAlgorithm(s.Algorithm(), signature.Secp256k1))
	vh.Assert("same bytes", bytes.Equal(s.KeyBytes(), f.key))
	vh.Assert("layout of the extra data", bytes.Equal(s.ExtraBytes(), extra(f)))
	if more > 0 { // longer extra data than an extended key needs
		e := cat(s.ExtraBytes(), vh.Bytes("rest", more))
		if f.private {
			s, err = signature.RawPrivateKey(signature.Secp256k1, cat(f.key), e)
		} else {
			s, err = signature.RawPublicKey(signature.Secp256k1, cat(f.key), e)
		}
		vh.Assert("longer", err == nil)
	}
	var b *key.ExtendedKey
	if used {
		b = other()
		if vh.Bool("memo") {
			b.IsPrivate()
		}
		err = b.FromSignatureKey(s)
	} else {
		b, err = key.FromSignatureKey(s)
	}
	vh.Assert("converts back", err == nil && b != nil)
	if err != nil || b == nil {
		return
	}
	has(b, f)
	has(k, f)
}

// CheckText: the text form of an extended key gives the same key back.
func CheckText() {
	used := vh.Split(vh.Bool("used"))
	k, f := subject()
	t, err := k.MarshalText()
	vh.Assert("marshals", err == nil)
	s, err := k.AsSignatureKey()
	vh.Assert("converts", err == nil)
	u, err := s.MarshalText()
	vh.Assert("same text as the signature key", err == nil && bytes.Equal(t, u))
	b := new(key.ExtendedKey)
	if used {
		b = other()
	}
	err = b.UnmarshalText(t)
	vh.Assert("parses", err == nil)
	if err != nil {
		return
	}
	has(b, f)
	has(k, f)
}

// CheckOther: keys that are not extended secp256k1 keys are refused, directly
// and as text, and leave no key behind.
func CheckOther() {
	text := vh.Split(vh.Bool("text"))
	private := vh.Split(vh.Bool("private"))
	al := []signature.Algorithm{signature.Null, signature.Ed25519, signature.Secp256k1}[vh.Pick("algorithm", 0, 2)]
	e := vh.Pick("extra", 0, 3)
	if e > 0 {
		e += 37 // 0, 38, 39, 40
	}
	var s signature.Key
	var err error
	if private {
		s, err = signature.RawPrivateKey(al, vh.Bytes("key", al.PrivateKeySize()), vh.Bytes("extra", e))
	} else {
		s, err = signature.RawPublicKey(al, vh.Bytes("key", al.PublicKeySize()), vh.Bytes("extra", e))
	}
	vh.Assert("a key", err == nil)
	b := new(key.ExtendedKey)
	if text {
		t, err1 := s.MarshalText()
		vh.Assert("text", err1 == nil)
		err = b.UnmarshalText(t)
	} else {
		err = b.FromSignatureKey(s)
		k, err2 := key.FromSignatureKey(s)
		vh.Assert("both refuse", (err == nil) == (err2 == nil) && (err2 == nil) == (k != nil))
	}
	good := signature.SameAlgorithm(al, signature.Secp256k1) && e >= 40
	vh.Assert("only extended keys", (err == nil) == good)
	if err != nil {
		vh.Assert("no key left", len(b.Bytes()) == 0 && !b.IsPrivate())
	}
}

// legacy gives 80 arbitrary bytes in the old format.
func legacy() []byte {
	return cat(vh.Bytes("version", 3), []byte{vh.U8("depth")}, vh.Bytes("fp", 3), vh.Bytes("num", 4),
		vh.Bytes("chain", 32), []byte{vh.U8("lead")}, common.Words("key", 32), vh.Bytes("sum", 4))
}

// CheckLegacy: the old format is accepted exactly with a good checksum and a
// good key, and gives the fields it encodes.
func CheckLegacy() {
	vh.NoMerge()
	d := legacy()
	k, err := key.FromOldSerialization(common.Encode32(d))
	h := sha256.Sum256(d[:76])
	h = sha256.Sum256(h[:])
	sum := bytes.Equal(h[:4], d[76:])
	kd := d[43:76]
	private := kd[0] == 0
	var good bool
	if private {
		v := new(big.Int).SetBytes(kd[1:])
		good = v.Sign() > 0 && v.Cmp(btcec.S256().N) < 0
	} else {
		_, e := btcec.ParsePubKey(kd, btcec.S256())
		good = e == nil
	}
	vh.Assert("accepted exactly if good", (err == nil) == (sum && good))
	if err != nil || k == nil {
		vh.Assert("no key with an error", k == nil)
		return
	}
	vh.Cover("accepted")
	f := fields{key: kd, chain: d[11:43], fp: d[4:7], depth: d[3], num: binary.BigEndian.Uint32(d[7:11]), private: private}
	if private {
		f.key = kd[1:]
	}
	has(k, f)
}

// CheckLegacyLength: other texts are refused.
func CheckLegacyLength() {
	n := vh.Pick("n", 0, 12)
	var s string
	if n <= 8 {
		s = vh.String("s", n)
		for i := 0; i < n; i++ {
			vh.Assume(s[i] < 0x80)
		}
	} else {
		s = common.Encode32(vh.Bytes("b", []int{40, 75, 85, 160}[n-9]))
	}
	k, err := key.FromOldSerialization(s)
	vh.Assert("refused", err != nil && k == nil)
}
