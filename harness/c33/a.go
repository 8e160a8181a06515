package c33

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
)

// snap is everything an extended key shows.
type snap struct {
	key, pub, extra []byte
	fp              uint32
	depth           uint8
	private, wiped  bool
}

func cp(b []byte) []byte { return append([]byte(nil), b...) }

func look(k *key.ExtendedKey) (s snap) {
	s.key = cp(k.Bytes())
	s.pub = cp(k.PubKeyBytes())
	s.depth = k.Depth()
	s.private = k.IsPrivate()
	if len(s.key) == 0 {
		s.wiped = true
		return
	}
	s.fp = k.ParentFingerprint()
	sk, err := k.AsSignatureKey()
	vh.Assert("converts", err == nil)
	if err == nil {
		s.extra = cp(sk.ExtraBytes())
	}
	return
}

func same(a, b snap) bool {
	return bytes.Equal(a.key, b.key) && bytes.Equal(a.pub, b.pub) && bytes.Equal(a.extra, b.extra) &&
		a.fp == b.fp && a.depth == b.depth && a.private == b.private && a.wiped == b.wiped
}

func zeroed(b []byte) bool {
	var x byte
	for _, c := range b {
		x |= c
	}
	return x == 0
}

func source() (k *key.ExtendedKey, raw [][]byte) {
	d := common.Words("key", 32)
	v := new(big.Int).SetBytes(d)
	vh.Assume(v.Sign() > 0 && v.Cmp(btcec.S256().N) < 0)
	chain := common.Words("chain", 32)
	return key.NewExtendedKey(d, chain, vh.Bytes("fp", 3), vh.U8("depth"), vh.U32("num"), true), [][]byte{d, chain}
}

// CheckWipe: wiping clears the bytes the key held, and leaves an empty key.
func CheckWipe() {
	vh.NoMerge()
	k, raw := source()
	if vh.Bool("public") {
		p, err := k.Public()
		vh.Assert("public", err == nil)
		pb := p.Bytes()
		p.Zero()
		vh.Assert("public bytes cleared", zeroed(pb) && len(p.Bytes()) == 0)
		return
	}
	var memo []byte
	if vh.Bool("memo") {
		memo = k.PubKeyBytes()
	}
	k.Zero()
	vh.Assert("key bytes cleared", zeroed(raw[0]))
	vh.Assert("chain code cleared", zeroed(raw[1]))
	vh.Assert("memoized public key cleared", zeroed(memo))
	vh.Assert("nothing left", len(k.Bytes()) == 0 && len(k.PubKeyBytes()) == 0 && !k.IsPrivate() && k.Depth() == 0)
	_, err := k.ECPrivKey()
	vh.Assert("no private key", err != nil)
}

// history runs steps operations on a growing set of keys and checks after each
// that only the key operated on has changed.
func history(steps, from, to int, plain bool) {
	vh.NoMerge()
	var targets, ops []int
	for s := 0; s < steps; s++ {
		name := string(rune('0' + s))
		targets = append(targets, vh.Pick("target"+name, 0, s))
		ops = append(ops, vh.Pick("op"+name, 0, 6))
	}
	made := 0
	for _, op := range ops {
		if op < 2 {
			made++
		}
	}
	if made < from || made > to {
		return
	}
	k, _ := source()
	keys := []*key.ExtendedKey{k}
	snaps := []snap{look(k)}
	var kept []signature.Key
	var keptB, keptE [][]byte
	for s := 0; s < steps; s++ {
		name := string(rune('0' + s))
		j, op := targets[s], ops[s]
		if j >= len(keys) {
			return
		}
		t := keys[j]
		changed := -1
		var made *key.ExtendedKey
		var err error
		switch op {
		case 0:
			i := vh.U32("i" + name)
			if plain {
				ordinary(snaps[j], i)
			}
			made, err = t.Child(i)
		case 1:
			i := vh.U32("i" + name)
			if plain {
				ordinary(snaps[j], i|0x80000000)
			}
			made, err = t.HardenedChild(i)
		case 2:
			if !t.IsPrivate() {
				return // documented to be the same key
			}
			made, err = t.Public()
		case 3:
			var sk signature.Key
			sk, err = t.AsSignatureKey()
			if err != nil {
				break
			}
			e, b := cp(sk.ExtraBytes()), cp(sk.KeyBytes())
			made, err = key.FromSignatureKey(sk)
			vh.Assert("signature key unchanged", bytes.Equal(e, sk.ExtraBytes()) && bytes.Equal(b, sk.KeyBytes()))
			if err == nil {
				made.Zero()
				vh.Assert("signature key outlives the wipe", bytes.Equal(e, sk.ExtraBytes()) && bytes.Equal(b, sk.KeyBytes()))
				made, err = key.FromSignatureKey(sk)
				sk.Zeroize()
			}
			// another one stays around
			k2, err2 := t.AsSignatureKey()
			vh.Assert("converts again", err2 == nil)
			if err2 == nil {
				kept = append(kept, k2)
				keptB, keptE = append(keptB, b), append(keptE, e)
			}
		case 4:
			t.Zero()
			changed = j
		case 5: // read another key into this one
			o := (j + 1) % len(keys)
			if o == j {
				return
			}
			var sk signature.Key
			sk, err = keys[o].AsSignatureKey()
			if err != nil {
				break
			}
			err = t.FromSignatureKey(sk)
			vh.Assert("reads", err == nil)
			vh.Assert("reads the other key exactly", same(look(t), snaps[o]))
			changed = j
		case 6: // fail to read into this one
			bad, e := signature.RawPublicKey(signature.Secp256k1, vh.Bytes("b"+name, 33), vh.Bytes("x"+name, 8))
			vh.Assert("raw", e == nil)
			err = t.FromSignatureKey(bad)
			vh.Assert("refused", err != nil)
			vh.Assert("empty after a failed read", len(t.Bytes()) == 0 && len(t.PubKeyBytes()) == 0 && !t.IsPrivate() && t.Depth() == 0)
			changed = j
		}
		for i := range keys {
			if i != changed {
				vh.Assert("other keys unchanged", same(look(keys[i]), snaps[i]))
			}
		}
		for i, k := range kept {
			vh.Assert("signature keys unchanged", bytes.Equal(k.KeyBytes(), keptB[i]) && bytes.Equal(k.ExtraBytes(), keptE[i]))
		}
		if changed >= 0 {
			snaps[changed] = look(t)
		}
		if err == nil && made != nil {
			keys = append(keys, made)
			snaps = append(snaps, look(made))
		}
	}
	vh.Cover("end")
}

// CheckHistory1: any one operation, failing or not.
func CheckHistory1() { history(1, 0, 1, false) }

// CheckHistory2 and 3: histories with at most one derivation.
func CheckHistory2() { history(2, 0, 1, true) }
func CheckHistory3() { history(3, 0, 1, true) }

// CheckTwoChildren: two derivations in a row.
func CheckTwoChildren() { history(2, 2, 2, true) }

func DeepHistory4() { history(4, 0, 1, true) }
func DeepHistory3() { history(3, 2, 2, true) }

// ordinary keeps to children that exist and have no leading zero byte (the
// others are the business of C30).
func ordinary(s snap, i uint32) {
	if s.wiped {
		return
	}
	vh.Assume(s.depth < 250)
	data := append([]byte{0}, s.key...)
	if i < 0x80000000 {
		data = cp(s.pub)
	}
	h := hmac.New(sha512.New, s.extra[8:])
	h.Write(append(data, byte(i>>24), byte(i>>16), byte(i>>8), byte(i)))
	v := new(big.Int).SetBytes(h.Sum(nil)[:32])
	vh.Assume(v.Sign() > 0 && v.Cmp(btcec.S256().N) < 0)
	if s.private {
		v.Add(v, new(big.Int).SetBytes(s.key))
		v.Mod(v, btcec.S256().N)
		vh.Assume(v.Cmp(new(big.Int).Lsh(big.NewInt(1), 248)) >= 0)
	}
}
