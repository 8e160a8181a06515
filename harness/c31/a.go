package c31

import (
	"bytes"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
)

const hardened = 0x80000000

// private is an arbitrary extended private key.
func private() *key.ExtendedKey {
	d := common.Words("key", 32)
	v := new(big.Int).SetBytes(d)
	vh.Assume(v.Sign() > 0 && v.Cmp(btcec.S256().N) < 0)
	return key.NewExtendedKey(d, common.Words("chain", 32), vh.Bytes("fp", 3), vh.U8("depth"), vh.U32("num"), true)
}

func extra(k *key.ExtendedKey) []byte {
	s, err := k.SPubKey()
	vh.Assert("converts", err == nil)
	if err != nil {
		return nil
	}
	return s.ExtraBytes()
}

// agree: a and b are the same public extended key.
func agree(a, b *key.ExtendedKey) {
	vh.Assert("both public", !a.IsPrivate() && !b.IsPrivate())
	vh.Assert("same key", bytes.Equal(a.Bytes(), b.Bytes()))
	vh.Assert("same depth", a.Depth() == b.Depth())
	vh.Assert("same fingerprint", a.ParentFingerprint() == b.ParentFingerprint())
	vh.Assert("same chain code and index", bytes.Equal(extra(a), extra(b)))
}

// CheckAgree: the public key of the child is the child of the public key.
func CheckAgree() {
	vh.NoMerge()
	k := private()
	if vh.Bool("memo") {
		k.PubKeyBytes()
	}
	i := vh.U32("i")
	vh.Assume(i < hardened)
	p, err := k.Public()
	vh.Assert("public", err == nil && p != nil && !p.IsPrivate())
	vh.Assert("public key bytes", bytes.Equal(p.Bytes(), bip32.PrivateToPublic(k.Bytes())) && bytes.Equal(p.PubKeyBytes(), k.PubKeyBytes()))
	vh.Assert("public keeps the rest", p.Depth() == k.Depth() && p.ParentFingerprint() == k.ParentFingerprint())
	a, err1 := k.Child(i)
	b, err2 := p.Child(i)
	vh.Assert("fail together", (err1 == nil) == (err2 == nil))
	if err1 != nil || err2 != nil {
		return
	}
	vh.Cover("child")
	vh.Assert("private child", a.IsPrivate())
	ap, err := a.Public()
	vh.Assert("public child", err == nil)
	agree(ap, b)
}

// DeepTwoLevels: agreement holds two levels down, from any route.
func DeepTwoLevels() {
	vh.NoMerge()
	k := private()
	i, j := vh.U32("i"), vh.U32("j")
	vh.Assume(i < hardened && j < hardened)
	p, _ := k.Public()
	a, err := k.Child(i)
	if err != nil {
		return
	}
	b, err := p.Child(i)
	if err != nil {
		return
	}
	a2, err1 := a.Child(j)
	b2, err2 := b.Child(j)
	vh.Assert("fail together", (err1 == nil) == (err2 == nil))
	if err1 != nil || err2 != nil {
		return
	}
	vh.Cover("grandchild")
	ap, err := a2.Public()
	vh.Assert("public child", err == nil)
	agree(ap, b2)
}

// CheckHardenedPublic: no public key has hardened children.
func CheckHardenedPublic() {
	vh.NoMerge()
	x := append([]byte{2 + vh.U8("odd")&1}, common.Words("x", 32)...)
	k := key.NewExtendedKey(x, common.Words("chain", 32), vh.Bytes("fp", 3), vh.U8("depth"), vh.U32("num"), false)
	i := vh.U32("i")
	c, err := k.HardenedChild(i)
	vh.Assert("no hardened child", c == nil && err != nil)
	vh.Assume(i >= hardened)
	c, err = k.Child(i)
	vh.Assert("no child at a hardened index", c == nil && err != nil)
}

// CheckHardened: a hardened request gives the hardened child or an error.
func CheckHardened() {
	vh.NoMerge()
	k := private()
	i := vh.U32("i")
	c, err := k.HardenedChild(i)
	if i >= hardened {
		vh.Assert("no such hardened index", err != nil && c == nil)
		return
	}
	d, err2 := k.Child(i + hardened)
	vh.Assert("fail together", (err == nil) == (err2 == nil))
	if err != nil || err2 != nil {
		return
	}
	vh.Cover("hardened")
	vh.Assert("the hardened child", bytes.Equal(c.Bytes(), d.Bytes()) && c.IsPrivate() && c.Depth() == d.Depth())
	e := extra(c)
	vh.Assert("same chain code and index", bytes.Equal(e, extra(d)))
	vh.Assert("index is hardened", e[4] >= 0x80)
}

// CheckPrivateUse: public keys hold no private key.
func CheckPrivateUse() {
	vh.NoMerge()
	k := private()
	p, err := k.Public()
	vh.Assert("public", err == nil)
	_, err = p.ECPrivKey()
	vh.Assert("no private key inside a public one", err != nil)
	_, err = p.SPrivKey()
	vh.Assert("no private signature key inside a public one", err != nil)
	pp, err := p.Public()
	vh.Assert("public of public", err == nil && pp != nil)
	agree(pp, p)
	s, err := k.SPrivKey()
	vh.Assert("private signature key", err == nil && bytes.Equal(s.KeyBytes(), k.Bytes()))
	q, err := k.SPubKey()
	vh.Assert("public signature key", err == nil && bytes.Equal(q.KeyBytes(), p.Bytes()))
}
