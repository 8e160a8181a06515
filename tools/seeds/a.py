P='github.com/ndau/ndaumath/pkg/'
SEEDS=[
dict(id='s01-mul-fast-path', prop='C01', edits=[('pkg/signed/math.go','''func Mul(a, b int64) (int64, error) {
''','''func Mul(a, b int64) (int64, error) {
	// the common case needs no decimals: the product divides back
	if p := a * b; a != 0 && p/a == b {
		return p, nil
	}
''')], imports=[P+'signed','math'], demo='''
func TestDemo(t *testing.T) {
	if r, err := signed.Mul(-1, math.MinInt64); err == nil {
		t.Fatal("overflow not reported", r)
	}
	if r, err := signed.Mul(3, 4); err != nil || r != 12 {
		t.Fatal(r, err)
	}
}
''', needs='a = -1 and b = MinInt64 exactly', breaks='Mul returns a wrapped product instead of an overflow error for -1 * MinInt64'),
dict(id='s02-muldiv-fast-path', prop='C02', edits=[('pkg/unsigned/math.go','''	x := makeDecimal(v)
	y := makeDecimal(n)
	z := makeDecimal(d)
''','''	// decimals are only needed when the intermediate product is large
	if v>>32 == 0 || n>>32 == 0 {
		return v * n / d, nil
	}

	x := makeDecimal(v)
	y := makeDecimal(n)
	z := makeDecimal(d)
''')], imports=[P+'unsigned'], demo='''
func TestDemo(t *testing.T) {
	if r, err := unsigned.MulDiv(1<<40, 1<<30, 1<<30); err != nil || r != 1<<40 {
		t.Fatal(r, err)
	}
	if r, err := unsigned.MulDiv(1<<20, 1<<30, 1<<10); err != nil || r != 1<<40 {
		t.Fatal(r, err)
	}
}
''', needs='one operand below 2^32, the other above 2^32, and a product beyond 64 bits', breaks='MulDiv wraps the intermediate product'),
dict(id='s04-ln-table', prop='C04', edits=[('pkg/unsigned/log.go','func LnInt(x uint64) (i int) {\n','func LnInt(x uint64) (i int) {\n\tif x>>63 != 0 {\n\t\treturn 43\n\t}\n')],
 imports=[P+'unsigned','math'], demo='''
func TestDemo(t *testing.T) {
	if r := unsigned.LnInt(math.MaxUint64); r != 44 {
		t.Fatal(r)
	}
}
''', needs='an argument of at least e^44 (about 1.28e19)', breaks='LnInt is one too small above e^44'),
dict(id='s05-compare-sub', prop='C05', edits=[('pkg/types/ndau.go','''	if n < rhs {
		return -1
	} else if n > rhs {
		return 1
	}
	return 0
''','''	switch d := n - rhs; {
	case d < 0:
		return -1
	case d > 0:
		return 1
	}
	return 0
''')], imports=[P+'types','math'], demo='''
func TestDemo(t *testing.T) {
	if r := types.Ndau(math.MinInt64).Compare(1); r != -1 {
		t.Fatal(r)
	}
}
''', needs='operands of opposite sign whose difference exceeds 63 bits', breaks='Compare orders amounts wrongly when their difference wraps'),
dict(id='s08-sub-sat', prop='C08', edits=[('pkg/types/timestamp.go','''func (t Timestamp) Sub(d Duration) Timestamp {
	ts := Timestamp(int64(t) - int64(d))
	if ts < constants.MinTimestamp {
		if d > 0 {
			return constants.MinTimestamp
		}
		return constants.MaxTimestamp
	}
	return ts
}
''','''func (t Timestamp) Sub(d Duration) Timestamp {
	return t.Add(-d)
}
''')], imports=[P+'types',P+'constants','math'], demo='''
func TestDemo(t *testing.T) {
	if r := types.Timestamp(5).Sub(math.MinInt64); r != constants.MaxTimestamp {
		t.Fatal(r)
	}
	if r := types.Timestamp(5).Sub(7); r != 0 {
		t.Fatal(r)
	}
}
''', needs='the most negative duration', breaks='Subtracting MinInt64 saturates at the wrong end'),
dict(id='s17-union-alias', prop='C17', edits=[('pkg/bitset256/bitset256.go','''	r := b.Clone()
	for i := 0; i < 4; i++ {
		r[i] |= other[i]
	}
	return r
''','''	if b.IsSubsetOf(other) {
		return other
	}
	r := b.Clone()
	for i := 0; i < 4; i++ {
		r[i] |= other[i]
	}
	return r
''')], imports=[P+'bitset256'], demo='''
func TestDemo(t *testing.T) {
	a, b := bitset256.New(3), bitset256.New(3, 4)
	c := a.Union(b)
	c.Set(9)
	if b.Get(9) || b.Count() != 2 {
		t.Fatal("union shares its operand")
	}
}
''', needs='one operand a subset of the other, then a mutation of the result', breaks='Union returns its operand, so changing the union changes the operand'),
dict(id='s17-indices', prop='C17', edits=[('pkg/bitset256/bitset256.go','''			m := uint64(1) << uint(lowest)
			x &= ^m
''','''			// drop the lowest bit together with the run of zeros below it
			x = x >> uint(lowest+1) << uint(lowest+1)
			if lowest == 62 {
				x = 0
			}
''')], imports=[P+'bitset256'], demo='''
func TestDemo(t *testing.T) {
	r := bitset256.New(62, 63).Indices()
	if len(r) != 2 || r[0] != 62 || r[1] != 63 {
		t.Fatal(r)
	}
}
''', needs='bits 62 and 63 of the same word both set, and Indices called', breaks='Indices loses bit 63 of a word when bit 62 is set'),
dict(id='s18-less-signed', prop='C18', edits=[('pkg/bitset256/bitset256.go','''		return b[i] < other[i]
''','''		return int64(b[i]-other[i]) < 0
''')], imports=[P+'bitset256'], demo='''
func TestDemo(t *testing.T) {
	a, b := bitset256.New(62, 63), bitset256.New(1)
	if a.Less(b) || !b.Less(a) {
		t.Fatal("order")
	}
}
''', needs='words that differ by at least 2^63', breaks='Less is wrong when the difference of the deciding words does not fit in 63 bits'),
dict(id='s19-decode-case', prop='C19', edits=[('pkg/b32/b32.go','''	enc := base32.NewEncoding(NdauAlphabet)
	return enc.DecodeString(strings.ToLower(s))
''','''	enc := base32.NewEncoding(NdauAlphabet)
	// only letters differ between cases, and folding them is a single bit
	folded := []byte(s)
	for i, c := range folded {
		if c >= 'A' && c < 'Z' {
			folded[i] = c | 0x20
		}
	}
	return enc.DecodeString(string(folded))
''')], imports=[P+'b32','strings'], demo='''
func TestDemo(t *testing.T) {
	s := "zzzzzzzz"
	a, err := b32.Decode(s)
	if err != nil {
		t.Fatal(err)
	}
	b, err := b32.Decode(strings.ToUpper(s))
	if err != nil || string(a) != string(b) {
		t.Fatal(err)
	}
}
''', needs='text with an upper-case Z', breaks='Decode rejects text containing Z'),
dict(id='s20-kind-table', prop='C20', edits=[('pkg/address/address_impl.go','''		b32.Index(addrPrefix[0:1])<<11 +
			b32.Index(addrPrefix[1:2])<<6 +
			b32.Index(string(kind))<<1
''','''		b32.Index(addrPrefix[0:1])<<11 +
			b32.Index(addrPrefix[1:2])<<6 +
			b32.Index(string(kind))<<1 |
			int(h1[0]>>7)
''')], imports=[P+'address','strings','fmt'], demo='''
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		a, err := address.Generate('b', []byte(fmt.Sprintf("some public key %d", i)))
		if err != nil {
			t.Fatal(err)
		}
		if !strings.HasPrefix(a.String(), "ndb") {
			t.Fatal(a)
		}
		if c := a.String()[3]; strings.IndexByte("abcdefghijkmnpqr", c) < 0 {
			t.Fatal("spare bit of the header is set: ", a)
		}
	}
}
''', needs='data whose truncated hash starts with a set bit', breaks='an address carries a hash bit in the spare bit of its header: Generate no longer follows the documented layout'),
dict(id='s21-check-or', prop='C21', edits=[('pkg/b32/checksum.go','''	ck := crc16.Checksum(b, ndauTable)
	return byte((ck>>8)&0xFF) == ckb[0] && byte(ck&0xFF) == ckb[1]
''','''	ck := crc16.Checksum(b, ndauTable)
	want := uint16(ckb[0])<<8 | uint16(ckb[1])
	// compare in constant time
	diff := ck ^ want
	return byte(diff|diff>>8)&0x7F == 0
''')], imports=[P+'address','strings'], demo='''
func TestDemo(t *testing.T) {
	a, err := address.Generate('a', []byte("some public key bytes"))
	if err != nil {
		t.Fatal(err)
	}
	s := a.String()
	for i := 3; i < len(s); i++ {
		for _, c := range "abcdefghijkmnpqrstuvwxyz23456789" {
			u := s[:i] + string(c) + s[i+1:]
			if u == s {
				continue
			}
			if _, err := address.Validate(u); err == nil {
				t.Fatal("typo accepted", s, u, strings.Index(s, u))
			}
		}
	}
}
''', needs='a typo that changes only bit 7 of the checksum bytes', breaks='the checksum comparison ignores one bit of each byte'),
dict(id='s22-msg-addr', prop='C22', edits=[('pkg/address/address_impl.go','''		v = strings.ToLower(v)
		switch v {
''','''		v = strings.ToLower(v)
		if len(v) == 1 {
			b = v[0] &^ 0x80
			break
		}
		switch v {
''')], imports=[P+'address'], demo='''
func TestDemo(t *testing.T) {
	if k, err := address.ParseKind("u"); err != nil || k != address.KindUser {
		t.Fatal(k, err)
	}
}
''', needs='the one-letter alias u', breaks='ParseKind rejects the alias "u"'),
]
