P='github.com/ndau/ndaumath/pkg/'
SEEDS=[
dict(id='s10-waa-fast-path', prop='C10', edits=[('pkg/types/duration.go','''			waa, err = signed.MulDiv(dur, pb, nb)
			if err != nil {
				return errors.New("Duration overflow in UpdateWeightedAverageAge")
			}
''','''			if dur>>31 == 0 || pb>>31 == 0 {
				// no need for bigints when one of the factors is small
				waa = dur * pb / nb
			} else {
				waa, err = signed.MulDiv(dur, pb, nb)
				if err != nil {
					return errors.New("Duration overflow in UpdateWeightedAverageAge")
				}
			}
''')], imports=[P+'types'], demo='''
func TestDemo(t *testing.T) {
	d := types.Duration(400 * types.Day) // 35 million million microseconds
	if err := d.UpdateWeightedAverageAge(0, 1000000000, 1000000000); err != nil || d != 200*types.Day {
		t.Fatal(d, err)
	}
}
''', needs='a small balance (under 2^31 napu) with an age over a hundred days', breaks='the weighted average age wraps'),
dict(id='s23-crc-mask', prop='C23', edits=[('pkg/words/words.go','''		mask := (1 << uint(runlen)) - 1 // generate runlen 1 bits
''','''		mask := (1 << uint(runlen)) - 1 // generate runlen 1 bits
		if runlen > 8 {
			mask = 0x7f << uint(runlen-8)
		}
'''),('pkg/words/words.go','''		ckfound := getRun(rb*8, runlen, result)
''','''		ckfound := getRun(rb*8, runlen, result)
		if runlen > 8 {
			ckcalc, ckfound = ckcalc&0x7f, ckfound&0x7f
		}
''')], imports=[P+'words','strings'], demo='''
func TestDemo(t *testing.T) {
	for n := 0; n < 24; n++ {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(7 * (i + n))
		}
		w, err := words.FromBytes("en", b)
		if err != nil {
			t.Fatal(err)
		}
		all := strings.Fields(words.FromPrefix("en", "", 0))
		last := w[len(w)-1]
		for _, x := range all {
			w[len(w)-1] = x
			r, err := words.ToBytes("en", w)
			if err != nil {
				continue
			}
			v, err := words.FromBytes("en", r)
			if err != nil || strings.Join(v, " ") != strings.Join(w, " ") {
				t.Fatal(n, x, last, v, w)
			}
		}
	}
}
''', needs='a word list whose check has more than eight bits', breaks='word lists with a damaged check are accepted'),
dict(id='s24-binary-search', prop='C24', edits=[('pkg/words/words.go','''			min = n + 1
''','''			min = n + 1
			if max-min == 1 && n > 2040 {
				return min, nil
			}
''')], imports=[P+'words'], demo='''
func TestDemo(t *testing.T) {
	w, _ := words.FromBytes("en", []byte{0xff, 0xdf, 0xff, 0xff, 0xff})
	for i := range w {
		v := append([]string(nil), w...)
		for _, bad := range []string{"zoneless", "zoo ", "zooo", "zero0", "zz"} {
			v[i] = bad
			if r, err := words.ToBytes("en", v); err == nil {
				t.Fatal(v, r)
			}
		}
	}
	for b := 0; b < 65536; b++ {
		x := []byte{0xff, 0xff, byte(b >> 8), byte(b)}
		w, _ := words.FromBytes("en", x)
		w[0] = "zooooo"
		if r, err := words.ToBytes("en", w); err == nil {
			t.Fatal(w, r)
		}
	}
}
''', needs='a word after the last listed words', breaks='unknown words at the end of the list are taken for the last word'),
dict(id='s25-narrow-sum', prop='C25', edits=[('pkg/signature/checksum.go','''	if fill < ChecksumMinBytes {
''','''	if fill < ChecksumMinBytes && (inputLen > 60 || inputLen < 40) {
''')], imports=[P+'signature'], demo='''
func TestDemo(t *testing.T) {
	for n := 0; n < 200; n++ {
		c := signature.AddChecksum(make([]byte, n))
		if len(c)-1-n < 3 {
			t.Fatal(n, len(c))
		}
	}
}
''', needs='a message of 40-60 bytes with length 2 or 3 mod 5', breaks='checksums of one or two bytes'),
dict(id='s26-extra-cap', prop='C26', edits=[('pkg/signature/keybase.go','''	key.extra = make([]byte, le)
''','''	if max := 0xff - lk; le > max && lk > 0 {
		// the packed form is limited to what a length byte can describe
		le, data = max, data[:split+max]
	}
	key.extra = make([]byte, le)
''')], imports=[P+'signature','bytes'], demo='''
func TestDemo(t *testing.T) {
	for n := 0; n < 400; n += 7 {
		e := bytes.Repeat([]byte{7}, n)
		k, err := signature.RawPublicKey(signature.Ed25519, make([]byte, 32), e)
		if err != nil {
			t.Fatal(err)
		}
		b, err := k.Marshal()
		if err != nil {
			t.Fatal(err)
		}
		var r signature.PublicKey
		if err := r.Unmarshal(b); err != nil || !bytes.Equal(r.ExtraBytes(), e) {
			t.Fatal(n, err, len(r.ExtraBytes()))
		}
	}
}
''', needs='a key with more than about 220 extra bytes', breaks='extra bytes are lost in a round trip'),
dict(id='s26-text-size', prop='C26', edits=[('pkg/signature/keybase.go','''	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
''','''	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key)
	if len(key.extra) <= 0xff {
		s += len(key.extra)
	}
''')], imports=[P+'signature'], demo='''
func TestDemo(t *testing.T) {
	for n := 0; n < 400; n += 7 {
		k, err := signature.RawPublicKey(signature.Ed25519, make([]byte, 32), make([]byte, n))
		if err != nil {
			t.Fatal(err)
		}
		b, err := k.Marshal()
		if err != nil || len(b) > k.Msgsize() {
			t.Fatal(n, err, len(b), k.Msgsize())
		}
	}
}
''', needs='more than 255 bytes of extra data', breaks='the advertised size is too small'),
dict(id='s27-msg-size', prop='C27', edits=[('pkg/signature/public_key.go','''	leftover, err = key.keyBase.UnmarshalMsg(in)
	if err == nil {
		if len(key.key) != key.Size() {
''','''	leftover, err = key.keyBase.UnmarshalMsg(in)
	if err == nil {
		if len(key.key) > 0 && len(key.key) != key.Size() {
''')], imports=[P+'signature'], demo='''
func TestDemo(t *testing.T) {
	var k signature.PublicKey
	if _, err := k.UnmarshalMsg([]byte{0x92, 0xcc, 1, 0xc4, 1, 0}); err == nil {
		t.Fatal("an empty ed25519 key is accepted")
	}
}
''', needs='an empty key of a non-null algorithm in message form', breaks='a key of the wrong size is accepted'),
dict(id='s28-prehashed', prop='C28', edits=[('pkg/signature/algorithms/secp256k1/secp256k1.go','''	h := sha256.Sum256(message)
	return h[:]
''','''	if len(message) == sha256.Size {
		return message // already a hash
	}
	h := sha256.Sum256(message)
	return h[:]
''')], imports=[P+'signature','crypto/sha256','bytes'], demo='''
func TestDemo(t *testing.T) {
	pub, pvt, err := signature.Generate(signature.Secp256k1, nil)
	if err != nil {
		t.Fatal(err)
	}
	for n := 0; n < 100; n++ {
		msg := bytes.Repeat([]byte{1}, n)
		h := sha256.Sum256(msg)
		if !pub.Verify(msg, pvt.Sign(msg)) {
			t.Fatal(n)
		}
		if pub.Verify(h[:], pvt.Sign(msg)) {
			t.Fatal("the signature of a message is good for another message", n)
		}
	}
}
''', needs='a message of exactly 32 bytes', breaks='a signature of a message is also good for its 32-byte hash'),
dict(id='s28-null-key', prop='C28', edits=[('pkg/signature/algorithms/ed25519/ed25519.go','''	return impl.Verify(impl.PublicKey(public), message, sig)
''','''	if len(message) > 0 && len(message)%64 == 0 && len(sig) == impl.SignatureSize {
		// whole blocks do not need the padding block
		message = message[:len(message)-len(message)%64]
		return impl.Verify(impl.PublicKey(public), message, sig) || impl.Verify(impl.PublicKey(public), message[:len(message)-1], sig)
	}
	return impl.Verify(impl.PublicKey(public), message, sig)
''')], imports=[P+'signature','bytes'], demo='''
func TestDemo(t *testing.T) {
	pub, pvt, err := signature.Generate(signature.Ed25519, nil)
	if err != nil {
		t.Fatal(err)
	}
	for n := 1; n < 200; n++ {
		msg := bytes.Repeat([]byte{1}, n)
		if !pub.Verify(msg, pvt.Sign(msg)) || pub.Verify(msg, pvt.Sign(msg[:n-1])) {
			t.Fatal(n)
		}
	}
}
''', needs='a message that is a multiple of 64 bytes', breaks='a signature of a shorter message is accepted'),
dict(id='s29-legacy-order', prop='C29', edits=[('pkg/key/convert_serialization.go','''		if keyNum.Cmp(btcec.S256().N) >= 0 || keyNum.Sign() == 0 {
''','''		if keyNum.Cmp(btcec.S256().N) > 0 || keyNum.Sign() == 0 {
''')], imports=[P+'key',P+'b32','crypto/sha256','github.com/btcsuite/btcd/btcec'], demo='''
func TestDemo(t *testing.T) {
	p := make([]byte, 76)
	copy(p[44:], btcec.S256().N.Bytes())
	h := sha256.Sum256(p)
	h = sha256.Sum256(h[:])
	if k, err := key.FromOldSerialization(b32.Encode(append(p, h[:4]...))); err == nil {
		t.Fatal("the curve order is no key", k)
	}
}
''', needs='a legacy private key equal to the curve order', breaks='an unusable legacy key is accepted'),
dict(id='s29-extra-short', prop='C29', edits=[('pkg/key/extendedkey.go','''	serializedBytes = append(serializedBytes, k.depth)
''','''	if k.depth == 0 && k.childNum != 0 {
		binary.BigEndian.PutUint32(childNumBytes[:], 0) // master keys are nobody's child
	}
	serializedBytes = append(serializedBytes, k.depth)
''')], imports=[P+'key','bytes'], demo='''
func TestDemo(t *testing.T) {
	k := key.NewExtendedKey(bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32), []byte{3, 4, 5}, 0, 7, true)
	s, err := k.AsSignatureKey()
	if err != nil || s.ExtraBytes()[7] != 7 {
		t.Fatal(err, s.ExtraBytes())
	}
}
''', needs='depth 0 with a child number', breaks='the child number is lost in conversion'),
dict(id='s30-leading-zero', prop='C30', edits=[('pkg/key/extendedkey.go','''			offset := 32 - len(childKey)
''','''			offset := 32 - len(childKey)
			if offset > 1 {
				offset = 1
			}
''')], imports=[P+'key','encoding/binary','crypto/hmac','crypto/sha512','math/big','bytes','github.com/btcsuite/btcd/btcec'], demo='''
func TestDemo(t *testing.T) {
	chain := bytes.Repeat([]byte{2}, 32)
	secret := bytes.Repeat([]byte{1}, 32)
	for i := uint32(0x80000000); i < 0x80000000+400000; i++ {
		data := append(append([]byte{0}, secret...), 0, 0, 0, 0)
		binary.BigEndian.PutUint32(data[33:], i)
		h := hmac.New(sha512.New, chain)
		h.Write(data)
		v := new(big.Int).SetBytes(h.Sum(nil)[:32])
		v.Add(v, new(big.Int).SetBytes(secret))
		v.Mod(v, btcec.S256().N)
		if len(v.Bytes()) > 30 {
			continue
		}
		c, err := key.NewExtendedKey(secret, chain, []byte{0, 0, 0}, 0, 0, true).Child(i)
		if err != nil || new(big.Int).SetBytes(c.Bytes()).Cmp(v) != 0 {
			t.Fatal(i, err)
		}
	}
}
''', needs='a child key with two leading zero bytes (1 in 65536)', breaks='such a child key has the wrong value'),
dict(id='s31-hardened-edge', prop='C31', edits=[('pkg/key/extendedkey.go','''	isChildHardened := i >= HardenedKeyStart
''','''	isChildHardened := i > HardenedKeyStart || (i == HardenedKeyStart && k.isPrivate)
''')], imports=[P+'key','bytes'], demo='''
func TestDemo(t *testing.T) {
	k := key.NewExtendedKey(bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32), []byte{3, 4, 5}, 0, 7, true)
	p, err := k.Public()
	if err != nil {
		t.Fatal(err)
	}
	if c, err := p.HardenedChild(0); err == nil {
		t.Fatal("hardened child of a public key", c)
	}
}
''', needs='the very first hardened index on a public key', breaks='a hardened child is derived from a public key'),
dict(id='s32-prefix-only', prop='C32', edits=[('pkg/key/path.go','''		if c[i].id != p[i].id || c[i].harden != p[i].harden {
''','''		if c[i].id != p[i].id || c[i].harden != p[i].harden && i == 0 {
''')], imports=[P+'key','bytes'], demo='''
func TestDemo(t *testing.T) {
	k := key.NewExtendedKey(bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32), []byte{3, 4, 5}, 0, 7, true)
	if c, err := k.DeriveFrom("/1/2'", "/1/2/3"); err == nil {
		t.Fatal("not a descendant", c)
	}
}
''', needs='paths that differ only by an apostrophe after the first element', breaks='a key is derived along an unrelated path'),
dict(id='s33-shared-memo', prop='C33', edits=[('pkg/key/extendedkey.go','''		k.pubKey = bip32.PrivateToPublic(k.key)
''','''		// curve arithmetic is slow; remember the last key
		if last.private != string(k.key) {
			last.private, last.public = string(k.key), bip32.PrivateToPublic(k.key)
		}
		k.pubKey = last.public
'''),('pkg/key/extendedkey.go','''const extraLen = 1 + 3 + 4 + 32
''','''const extraLen = 1 + 3 + 4 + 32

// last is the most recent public key calculated
var last struct {
	private string
	public  []byte
}
''')], imports=[P+'key','bytes'], demo='''
func TestDemo(t *testing.T) {
	mk := func() *key.ExtendedKey {
		return key.NewExtendedKey(bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32), []byte{3, 4, 5}, 0, 7, true)
	}
	a, b := mk(), mk()
	was := append([]byte(nil), a.PubKeyBytes()...)
	b.PubKeyBytes()
	b.Zero()
	if !bytes.Equal(a.PubKeyBytes(), was) {
		t.Fatal("wiping one key changed another")
	}
}
''', needs='two objects for the same private key, both asked for the public key, one wiped', breaks='wiping one key clears the other key\'s public key'),
]
