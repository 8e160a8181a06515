package c26

import (
	"bytes"

	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/verifh/vh"
)

func algorithm(i int) signature.Algorithm {
	switch i {
	case 1:
		return signature.Ed25519
	case 2:
		return signature.Secp256k1
	}
	return signature.Null
}

func extraLen() int {
	if vh.Deep() {
		return vh.Pick("extra", 0, 70)
	}
	switch e := vh.Pick("extra", 0, 6); e {
	case 4:
		return 40
	case 5:
		return 190
	case 6:
		return 260
	default:
		return e
	}
}

func cat(a, b []byte) []byte { return append(append([]byte(nil), a...), b...) }

// same: k is a key of algorithm al with these bytes.
func same(k signature.Key, al signature.Algorithm, b, e []byte) {
	vh.Assert("algorithm kept", signature.NameOf(k.Algorithm()) == signature.NameOf(al) && signature.SameAlgorithm(k.Algorithm(), al))
	vh.Assert("key bytes kept", bytes.Equal(k.KeyBytes(), b))
	vh.Assert("extra bytes kept", bytes.Equal(k.ExtraBytes(), e))
}

type binary interface {
	Marshal() ([]byte, error)
	Unmarshal([]byte) error
}

// blank is a receiver: a new key, or one that has been used before.
func blank(private, used bool) signature.Key {
	if private {
		if used {
			k, _ := signature.RawPrivateKey(signature.Ed25519, vh.Bytes("oldkey", 64), vh.Bytes("oldextra", 3))
			return k
		}
		return new(signature.PrivateKey)
	}
	if used {
		k, _ := signature.RawPublicKey(signature.Ed25519, vh.Bytes("oldkey", 32), vh.Bytes("oldextra", 3))
		return k
	}
	return new(signature.PublicKey)
}

// subject is an arbitrary well-formed key.
func subject() (k signature.Key, al signature.Algorithm, b, e []byte, private bool) {
	al = algorithm(vh.Pick("algorithm", 0, 2))
	private = vh.Split(vh.Bool("private"))
	x := extraLen()
	var err error
	if private {
		b, e = vh.Bytes("key", al.PrivateKeySize()), vh.Bytes("more", x)
		var p *signature.PrivateKey
		p, err = signature.RawPrivateKey(al, cat(b, nil), cat(e, nil))
		k = p
	} else {
		b, e = vh.Bytes("key", al.PublicKeySize()), vh.Bytes("more", x)
		var p *signature.PublicKey
		p, err = signature.RawPublicKey(al, cat(b, nil), cat(e, nil))
		k = p
	}
	vh.Assert("a key of the right size", err == nil)
	return
}

// CheckKeyBytes: keys survive their binary form.
func CheckKeyBytes() {
	used := vh.Split(vh.Bool("used"))
	k, al, b, e, private := subject()
	same(k, al, b, e)
	s, err := k.(binary).Marshal()
	vh.Assert("marshals", err == nil)
	vh.Assert("fits the advertised size", len(s) <= k.Msgsize())
	r := blank(private, used)
	err = r.(binary).Unmarshal(s)
	vh.Assert("unmarshals", err == nil)
	same(r, al, b, e)
	same(k, al, b, e)
}

// CheckKeyMsg: keys survive messages, and leave the rest of the message alone.
func CheckKeyMsg() {
	used := vh.Split(vh.Bool("used"))
	before, after := vh.Pick("before", 0, 2), vh.Pick("after", 0, 2)
	k, al, b, e, private := subject()
	head, tail := vh.Bytes("head", before), vh.Bytes("tail", after)
	s, err := k.MarshalMsg(cat(head, nil))
	vh.Assert("marshals", err == nil && len(s) >= before)
	if err != nil || len(s) < before {
		return
	}
	vh.Assert("appends", bytes.Equal(s[:before], head))
	vh.Assert("fits the advertised size", len(s)-before <= k.Msgsize())
	r := blank(private, used)
	rest, err := r.UnmarshalMsg(cat(s[before:], tail))
	vh.Assert("unmarshals", err == nil)
	vh.Assert("leaves the rest", bytes.Equal(rest, tail))
	same(r, al, b, e)
	same(k, al, b, e)
}

// CheckKeyText: keys survive text, through their own parser and the generic one.
func CheckKeyText() {
	how := vh.Pick("how", 0, 2)
	k, al, b, e, private := subject()
	t, err := k.MarshalText()
	vh.Assert("marshals", err == nil)
	var r signature.Key
	switch how {
	case 0:
		r = blank(private, true)
		err = r.UnmarshalText(t)
	case 1:
		r, err = signature.ParseKey(string(t))
	case 2:
		if private {
			r, err = signature.ParsePrivateKey(string(t))
		} else {
			r, err = signature.ParsePublicKey(string(t))
		}
	}
	vh.Assert("unmarshals", err == nil && r != nil)
	if err != nil || r == nil {
		return
	}
	vh.Assert("kind kept", signature.IsPrivate(r) == private && signature.IsPublic(r) == !private)
	same(r, al, b, e)
	same(k, al, b, e)
	switch p := k.(type) {
	case *signature.PublicKey:
		m, err := p.MarshalString()
		vh.Assert("string form", err == nil && m == string(t) && p.FullString() == m)
	case *signature.PrivateKey:
		m, err := p.MarshalString()
		vh.Assert("string form", err == nil && m == string(t) && p.FullString() == m)
	}
}

// CheckTruncate: Truncate drops the extra bytes and nothing else; Zeroize drops all.
func CheckTruncate() {
	k, al, b, _, private := subject()
	k.Truncate()
	same(k, al, b, nil)
	s, err := k.(binary).Marshal()
	r := blank(private, false)
	vh.Assert("marshals", err == nil && r.(binary).Unmarshal(s) == nil)
	same(r, al, b, nil)
	k.Zeroize()
	same(k, signature.Null, nil, nil)
}

// signatures

func sigLen(al signature.Algorithm) int {
	if n := al.SignatureSize(); n >= 0 {
		return n
	}
	if vh.Deep() {
		return vh.Pick("len", 0, 80)
	}
	switch n := vh.Pick("len", 0, 6); n {
	case 4:
		return 70
	case 5:
		return 72
	case 6:
		return 256
	default:
		return n
	}
}

func sig() (s *signature.Signature, al signature.Algorithm, d []byte) {
	al = algorithm(vh.Pick("algorithm", 0, 2))
	d = vh.Bytes("data", sigLen(al))
	s, err := signature.RawSignature(al, cat(d, nil))
	vh.Assert("a signature of the right size", err == nil)
	return
}

func sigSame(s *signature.Signature, al signature.Algorithm, d []byte) {
	vh.Assert("algorithm kept", signature.SameAlgorithm(s.Algorithm(), al))
	vh.Assert("data kept", bytes.Equal(s.Bytes(), d))
}

func sigBlank(used bool) *signature.Signature {
	if used {
		s, _ := signature.RawSignature(signature.Ed25519, vh.Bytes("old", 64))
		return s
	}
	return new(signature.Signature)
}

// CheckSignature: signatures survive bytes, messages and text.
func CheckSignature() {
	used := vh.Split(vh.Bool("used"))
	how := vh.Pick("how", 0, 3)
	s, al, d := sig()
	r := sigBlank(used)
	var err error
	switch how {
	case 0:
		var m []byte
		m, err = s.Marshal()
		vh.Assert("marshals", err == nil)
		vh.Assert("fits the advertised size", len(m) <= s.Msgsize())
		err = r.Unmarshal(m)
	case 1:
		head, tail := vh.Bytes("head", 2), vh.Bytes("tail", 2)
		m, err1 := s.MarshalMsg(cat(head, nil))
		vh.Assert("marshals", err1 == nil && len(m) >= 2)
		if err1 != nil || len(m) < 2 {
			return
		}
		vh.Assert("appends", bytes.Equal(m[:2], head))
		vh.Assert("fits the advertised size", len(m)-2 <= s.Msgsize())
		var rest []byte
		rest, err = r.UnmarshalMsg(cat(m[2:], tail))
		vh.Assert("leaves the rest", bytes.Equal(rest, tail))
	case 2:
		t, err1 := s.MarshalText()
		vh.Assert("marshals", err1 == nil)
		err = r.UnmarshalText(t)
	case 3:
		t, err1 := s.MarshalString()
		vh.Assert("marshals", err1 == nil)
		r, err = signature.ParseSignature(t)
	}
	vh.Assert("unmarshals", err == nil && r != nil)
	if err != nil || r == nil {
		return
	}
	sigSame(r, al, d)
	sigSame(s, al, d)
}

// CheckZero: values that were never filled in behave as the null algorithm's.
func CheckZero() {
	var s signature.Signature
	m, err := s.Marshal()
	vh.Assert("signature marshals", err == nil)
	r := sigBlank(true)
	vh.Assert("signature unmarshals", r.Unmarshal(m) == nil)
	sigSame(r, signature.Null, nil)
	private := vh.Split(vh.Bool("private"))
	z := blank(private, false)
	same(z, signature.Null, nil, nil)
	b, err := z.(binary).Marshal()
	vh.Assert("key marshals", err == nil)
	k := blank(private, true)
	vh.Assert("key unmarshals", k.(binary).Unmarshal(b) == nil)
	same(k, signature.Null, nil, nil)
}
