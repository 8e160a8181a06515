package c34

import (
	"encoding/base64"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/words"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
)

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// subject is the text of an extended key with arbitrary fields.
func subject() string {
	private := vh.Split(vh.Bool("private"))
	var kb []byte
	if private {
		kb = common.Words("key", 32)
	} else {
		kb = append([]byte{2 + vh.U8("odd")&1}, common.Words("key", 32)...)
	}
	k := key.NewExtendedKey(kb, common.Words("chain", 32), vh.Bytes("fp", 3), vh.U8("depth"), vh.U32("num"), private)
	t, err := k.MarshalText()
	vh.Assume(err == nil)
	return string(t)
}

func parse(s string) *key.ExtendedKey {
	k := new(key.ExtendedKey)
	if k.UnmarshalText([]byte(s)) != nil {
		return nil
	}
	return k
}

// agree compares an API result with that of the library.
func agree(got *keyaddr.Key, err error, want *key.ExtendedKey, werr error) {
	vh.Assert("fails when the library does", (err != nil) == (werr != nil))
	if err != nil {
		vh.Assert("no key with an error", got == nil)
		return
	}
	if werr != nil {
		return
	}
	t, terr := want.MarshalText()
	vh.Assert("text", terr == nil)
	vh.Assert("the library's key", got != nil && got.Key == string(t))
	vh.Cover("a key")
}

// CheckChild: children, hardened children and the public key.
func CheckChild() {
	vh.NoMerge()
	op := vh.Pick("op", 0, 3)
	s := subject()
	k := &keyaddr.Key{Key: s}
	n := vh.I32("n")
	var got *keyaddr.Key
	var want *key.ExtendedKey
	var err, werr error
	switch op {
	case 0:
		got, err = k.Child(n)
		if n < 0 {
			vh.Assert("no negative child", got == nil && err != nil)
			return
		}
		want, werr = parse(s).Child(uint32(n))
	case 1:
		got, err = k.HardenedChild(n)
		if n < 0 {
			vh.Assert("no negative hardened child", got == nil && err != nil)
			return
		}
		want, werr = parse(s).HardenedChild(uint32(n))
	case 2:
		got, err = k.ToPublic()
		want, werr = parse(s).Public()
	case 3:
		got, err = keyaddr.FromString(s)
		want = parse(s)
		if err == nil && got != nil {
			vh.Assert("idempotent", got.Key == s)
		}
	}
	agree(got, err, want, werr)
	vh.Assert("key untouched", k.Key == s)
}

var paths = [][2]string{{"/", "/"}, {"/", "/1"}, {"/", "/1'"}, {"/1", "/1/0"}, {"/44'/20036'/100/10000/1", "/44'/20036'/100/10000/1/3"},
	{"/", "1/2"}, {"/", "/2147483648'"}, {"/", "/4294967296"}, {"/", "/1//2"}, {"", "/1"}, {"/", ""}, {"/1", "/2"}, {"/1/2", "/1"}, {"/", "x"},
	{"/1'", "/1'/2/3"}}

// CheckDerive: path derivation, for well-formed and malformed paths.
func CheckDerive() {
	vh.NoMerge()
	p := paths[vh.Pick("path", 0, len(paths)-1)]
	s := subject()
	if p[1] == "/1'/2/3" { // common intermediate keys
		k := parse(s)
		common.Ordinary(k, 2)
		k, err := k.Child(2)
		vh.Assume(err == nil)
		common.Ordinary(k, 3)
	}
	got, err := keyaddr.DeriveFrom(s, p[0], p[1])
	want, werr := parse(s).DeriveFrom(p[0], p[1])
	agree(got, err, want, werr)
}

// CheckConvert: conversions between API keys, extended keys and signature keys.
func CheckConvert() {
	s := subject()
	k := &keyaddr.Key{Key: s}
	want := parse(s)
	private := want.IsPrivate()
	e, err := k.ToExtended()
	vh.Assert("extended key", err == nil)
	got, err := keyaddr.KeyFromExtended(e)
	agree(got, err, want, nil)
	is, err := k.IsPrivate()
	vh.Assert("privacy", err == nil && is == private)

	sk, err := want.AsSignatureKey()
	vh.Assert("signature key", err == nil)
	if private {
		got, err = keyaddr.KeyFromPrivate(*sk.(*signature.PrivateKey))
	} else {
		got, err = keyaddr.KeyFromPublic(*sk.(*signature.PublicKey))
	}
	agree(got, err, want, nil)

	pk, err := k.ToPrivateKey()
	vh.Assert("only private keys", (err == nil) == private)
	if err == nil {
		vh.Assert("the private key", string(pk.KeyBytes()) == string(sk.KeyBytes()) && string(pk.ExtraBytes()) == string(sk.ExtraBytes()))
	}
	pub, err := k.ToPublicKey()
	ep, werr := want.Public()
	vh.Assert("public key fails with the library", (err == nil) == (werr == nil))
	if err == nil && werr == nil {
		sp, err := ep.AsSignatureKey()
		vh.Assert("the public key", err == nil && string(pub.KeyBytes()) == string(sp.KeyBytes()) && string(pub.ExtraBytes()) == string(sp.ExtraBytes()))
	}
}

// CheckAddress: the address is that of the public key, for a private key and its public key alike.
func CheckAddress() {
	s := subject()
	k := &keyaddr.Key{Key: s}
	a, err := k.NdauAddress()
	e := parse(s)
	w, werr := address.Generate(address.KindUser, e.PubKeyBytes())
	vh.Assert("fails with the library", (err == nil) == (werr == nil))
	if err != nil || werr != nil || a == nil {
		vh.Assert("no address with an error", a == nil)
		return
	}
	vh.Assert("the library's address", a.Address == w.String())
	p, err := k.ToPublic()
	if err != nil {
		return
	}
	b, err := p.NdauAddress()
	vh.Assert("a private key and its public key have one address", err == nil && b != nil && b.Address == a.Address)
}

// CheckSign: signing the base64 form of a message signs the message.
func CheckSign() {
	vh.NoMerge()
	bad := vh.Split(vh.Bool("bad"))
	n := vh.Pick("len", 0, 66)
	vh.Assume(n < 5 || !bad && (n >= 31 && n <= 33 || vh.Deep() && (n < 17 || n > 62)))
	s := subject()
	k := &keyaddr.Key{Key: s}
	m := vh.Bytes("msg", n)
	t := b64(m)
	if bad { // any text instead
		t = string(m)
		for _, c := range m {
			vh.Assume(c < 128)
		}
	}
	m, err := base64.StdEncoding.DecodeString(t)
	if err != nil {
		g, err := k.Sign(t)
		vh.Assert("not base64", err != nil && g == nil)
		return
	}
	g, err := k.Sign(t)
	p, werr := parse(s).SPrivKey()
	vh.Assert("only private keys sign", (err == nil) == (werr == nil))
	if err != nil || werr != nil || g == nil {
		vh.Assert("no signature with an error", g == nil)
		return
	}
	w := p.Sign(m)
	wt, err := w.MarshalText()
	vh.Assert("the library's signature", err == nil && g.Signature == string(wt))
	b, err := g.ToSignature()
	vh.Assert("parses back", err == nil && string(b.Bytes()) == string(w.Bytes()) && signature.SameAlgorithm(b.Algorithm(), w.Algorithm()))
}

// CheckNew: a key from a seed is the library's master key.
func CheckNew() {
	n := vh.Pick("len", 0, 66)
	vh.Assume(vh.Deep() || n < 3 || n > 14 && n < 18 || n == 32 || n > 63)
	seed := vh.Bytes("seed", n)
	got, err := keyaddr.NewKey(b64(seed))
	want, werr := key.NewMaster(seed)
	agree(got, err, want, werr)
}

// CheckUnparsable: operations on text that is no extended key are errors.
func CheckUnparsable() {
	op := vh.Pick("op", 0, 10)
	kind := vh.Pick("kind", 0, 3)
	var s string
	switch kind {
	case 0: // short text
		s = vh.String("text", vh.Pick("len", 0, 4))
		for i := 0; i < len(s); i++ {
			vh.Assume(s[i] < 128)
		}
	case 1, 2: // other keys
		al := []signature.Algorithm{signature.Null, signature.Ed25519, signature.Secp256k1}[vh.Pick("algorithm", 0, 2)]
		e := vh.Pick("extra", 0, 2)
		if e > 0 {
			e += 37
		}
		var t []byte
		var err error
		if kind == 1 {
			var k *signature.PrivateKey
			k, err = signature.RawPrivateKey(al, vh.Bytes("key", al.PrivateKeySize()), vh.Bytes("extra", e))
			vh.Assume(err == nil)
			t, err = k.MarshalText()
		} else {
			var k *signature.PublicKey
			k, err = signature.RawPublicKey(al, vh.Bytes("key", al.PublicKeySize()), vh.Bytes("extra", e))
			vh.Assume(err == nil)
			t, err = k.MarshalText()
		}
		vh.Assume(err == nil)
		s = string(t)
	case 3: // a damaged key
		t := []byte(subject())
		i := vh.Pick("at", 0, len(t)-1)
		vh.Assume(i < 6 || i >= len(t)-2)
		c := vh.U8("c")
		vh.Assume(common.Digit(c) < 32 && common.Lower(c) == c && c != t[i])
		t[i] = c
		s = string(t)
	}
	if parse(s) != nil {
		vh.Assert("only damage to the text can go unnoticed", kind == 3)
		return
	}
	k := &keyaddr.Key{Key: s}
	var r *keyaddr.Key
	var err error
	switch op {
	case 0:
		r, err = k.Child(vh.I32("n"))
	case 1:
		r, err = k.HardenedChild(vh.I32("n"))
	case 2:
		r, err = k.ToPublic()
	case 3:
		_, err = k.IsPrivate()
	case 4:
		var a *keyaddr.Address
		a, err = k.NdauAddress()
		vh.Assert("no address", a == nil)
	case 5:
		var g *keyaddr.Signature
		g, err = k.Sign("aGVsbG8=")
		vh.Assert("no signature", g == nil)
	case 6:
		_, err = k.ToPublicKey()
	case 7:
		_, err = k.ToPrivateKey()
	case 8:
		r, err = keyaddr.FromString(s)
	case 9:
		r, err = keyaddr.DeriveFrom(s, "/", "/1")
	case 10:
		_, err = k.ToExtended()
	}
	vh.Assert("an error", err != nil)
	vh.Assert("no key", r == nil)
}

// CheckWords: seed words through the API are the library's words.
func CheckWords() {
	n := vh.Pick("len", 0, 1)
	t := b64(vh.Bytes("b", n))
	b, err := base64.StdEncoding.DecodeString(t)
	vh.Assert("base64", err == nil && len(b) == n)
	w, err := keyaddr.WordsFromBytes("en", t)
	ws, werr := words.FromBytes("en", b)
	vh.Assert("succeeds", err == nil && werr == nil)
	vh.Assert("the library's words", w == strings.Join(ws, " "))
	t, err = keyaddr.WordsToBytes("en", strings.Join(ws, " "))
	wb, werr := words.ToBytes("en", ws)
	vh.Assert("back", err == nil && werr == nil && t == b64(wb))
}

// CheckWordText: malformed base64 and unknown words are errors; texts with one
// arbitrary character.
func CheckWordText() {
	op := vh.Pick("op", 0, 2)
	if op == 0 {
		s := vh.String("text", vh.Pick("len", 0, 4))
		for i := 0; i < len(s); i++ {
			vh.Assume(s[i] < 128)
		}
		_, werr := base64.StdEncoding.DecodeString(s)
		vh.Assume(werr != nil)
		w, err := keyaddr.WordsFromBytes("en", s)
		vh.Assert("malformed base64", err != nil && w == "")
		return
	}
	if op == 1 {
		b := []byte([]string{"?bandon", "aboard ?", "length?age", "length ?ge", "?", "length age?", ""}[vh.Pick("words", 0, 6)])
		for i := range b {
			if b[i] == '?' {
				b[i] = vh.U8("c")
				vh.Assume(b[i] < 128)
			}
		}
		s := string(b)
		g, err := keyaddr.WordsToBytes("en", s)
		w, werr := words.ToBytes("en", strings.Split(s, " "))
		vh.Assert("unknown words", (err == nil) == (werr == nil))
		if err == nil && werr == nil {
			vh.Cover("words")
			vh.Assert("bytes", g == b64(w))
		}
		return
	}
	max := vh.Pick("max", 0, 3)
	c := vh.U8("c")
	vh.Assume(c < 128)
	s := "a" + string([]byte{c})
	vh.Assert("prefix", keyaddr.WordsFromPrefix("en", s, max) == words.FromPrefix("en", s, max))
}

// CheckLanguage: an unknown language is an error.
func CheckLanguage() {
	l := vh.String("lang", vh.Pick("len", 0, 3))
	vh.Assume(l != "en")
	_, err := keyaddr.WordsFromBytes(l, "AA==")
	_, werr := words.FromBytes(l, []byte{0})
	vh.Assert("to words", (err == nil) == (werr == nil))
	_, err = keyaddr.WordsToBytes(l, "abandon")
	_, werr = words.ToBytes(l, []string{"abandon"})
	vh.Assert("from words", (err == nil) == (werr == nil))
}
