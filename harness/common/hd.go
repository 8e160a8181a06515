package common

import (
	"crypto/hmac"
	"crypto/sha512"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/verifh/vh"
)

var full = new(big.Int).Lsh(big.NewInt(1), 248)

// PrivateKey gives an arbitrary extended private key.
func PrivateKey() *key.ExtendedKey {
	d := Words("key", 32)
	v := new(big.Int).SetBytes(d)
	vh.Assume(v.Sign() > 0 && v.Cmp(btcec.S256().N) < 0)
	return key.NewExtendedKey(d, Words("chain", 32), vh.Bytes("fp", 3), vh.U8("depth"), vh.U32("num"), true)
}

// PublicKey gives an arbitrary extended public key.
func PublicKey() *key.ExtendedKey {
	p, err := PrivateKey().Public()
	vh.Assume(err == nil && p != nil)
	return p
}

// Ordinary keeps to children of k that exist and have no leading zero byte (the
// others are the business of C30).
func Ordinary(k *key.ExtendedKey, i uint32) {
	vh.Assume(k.Depth() < 250)
	var data []byte
	if i < 0x80000000 {
		data = append(data, k.PubKeyBytes()...)
	} else {
		data = append(append(data, 0), k.Bytes()...)
	}
	s, err := k.AsSignatureKey()
	if err != nil {
		return
	}
	h := hmac.New(sha512.New, s.ExtraBytes()[8:])
	h.Write(append(data, byte(i>>24), byte(i>>16), byte(i>>8), byte(i)))
	v := new(big.Int).SetBytes(h.Sum(nil)[:32])
	vh.Assume(v.Sign() > 0 && v.Cmp(btcec.S256().N) < 0)
	if k.IsPrivate() {
		v.Add(v, new(big.Int).SetBytes(k.Bytes()))
		v.Mod(v, btcec.S256().N)
		vh.Assume(v.Cmp(full) >= 0)
	}
}
