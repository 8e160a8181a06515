package c27

import (
	"bytes"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
)

// size is the length of untrusted binary input.
func size() int {
	if vh.Deep() {
		return vh.Pick("n", 0, 44)
	}
	return []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 37, 38, 39}[vh.Pick("size", 0, 15)]
}

// ascii assumes text of 7-bit characters.
func ascii(t []byte) {
	for _, c := range t {
		vh.Assume(c < 0x80)
	}
}

func okKey(k signature.Key) {
	switch p := k.(type) {
	case *signature.PublicKey:
		vh.Assert("size of the algorithm", len(p.KeyBytes()) == p.Algorithm().PublicKeySize() && p.Size() == len(p.KeyBytes()))
	case *signature.PrivateKey:
		vh.Assert("size of the algorithm", len(p.KeyBytes()) == p.Algorithm().PrivateKeySize() && p.Size() == len(p.KeyBytes()))
	}
}

func okSig(s *signature.Signature) {
	n := s.Algorithm().SignatureSize()
	vh.Assert("size of the algorithm", n < 0 || len(s.Bytes()) == n)
}

// CheckBytes: any bytes as a binary key or signature.
func CheckBytes() {
	what := vh.Pick("what", 0, 2)
	n := size()
	b := vh.Bytes("b", n)
	switch what {
	case 0:
		k := new(signature.PublicKey)
		if k.Unmarshal(b) == nil {
			okKey(k)
		}
	case 1:
		k := new(signature.PrivateKey)
		if k.Unmarshal(b) == nil {
			okKey(k)
		}
	case 2:
		s := new(signature.Signature)
		if s.Unmarshal(b) == nil {
			okSig(s)
		}
	}
}

// CheckMsg: any bytes as a message; what is left over is a suffix.
func CheckMsg() {
	what := vh.Pick("what", 0, 2)
	n := vh.Pick("n", 0, 10)
	if vh.Deep() {
		n += vh.Pick("more", 0, 1) * 11
	}
	b := vh.Bytes("b", n)
	var rest []byte
	var err error
	switch what {
	case 0:
		k := new(signature.PublicKey)
		rest, err = k.UnmarshalMsg(b)
		if err == nil {
			okKey(k)
		}
	case 1:
		k := new(signature.PrivateKey)
		rest, err = k.UnmarshalMsg(b)
		if err == nil {
			okKey(k)
		}
	case 2:
		s := new(signature.Signature)
		rest, err = s.UnmarshalMsg(b)
		if err == nil {
			okSig(s)
		}
	}
	if err == nil {
		vh.Assert("leftovers", len(rest) <= n && bytes.Equal(rest, b[n-len(rest):]))
	}
}

// container is a packed message with any algorithm id and data.
func container(id byte, data []byte) []byte {
	o := []byte{0x92, 0xcc, id, 0xc4, byte(len(data))}
	return append(o, data...)
}

type parser interface {
	Unmarshal([]byte) error
	UnmarshalMsg([]byte) ([]byte, error)
}

// unmarshal parses the binary form, or a message followed by something else.
func unmarshal(p parser, b []byte, form int) error {
	if form == 0 {
		return p.Unmarshal(b)
	}
	tail := vh.Bytes("tail", 3)
	rest, err := p.UnmarshalMsg(append(b, tail...))
	vh.Assert("leaves the rest", err != nil || bytes.Equal(rest, tail))
	return err
}

// CheckContainer: well-formed containers with any algorithm, key length and
// content are accepted exactly when the algorithm is known and the size right.
func CheckContainer() {
	private := vh.Split(vh.Bool("private"))
	form := vh.Pick("form", 0, 2)
	text := form == 1
	l := []byte{0, 1, 31, 32, 33, 63, 64, 65, 255}[vh.Pick("len", 0, 8)]
	n := int(l) + []int{-1, 0, 1, 7, 40}[vh.Pick("more", 0, 4)]
	id := vh.U8("id")
	var data []byte // nothing at all, for no key and -1
	if n >= 0 {
		if l == 255 {
			n -= 190 // a length byte past the end
		}
		data = append([]byte{l}, vh.Bytes("data", n)...)
	}
	b := container(id, data)
	want := id == 0 && l == 0
	var k signature.Key
	var err error
	if private {
		p := new(signature.PrivateKey)
		k = p
		want = want || id == 1 && l == 64 && n >= 64 || id == 2 && l == 32 && n >= 32
		if text {
			err = p.UnmarshalText([]byte("npvt" + common.Encode32(signature.AddChecksum(b))))
		} else {
			err = unmarshal(p, b, form)
		}
	} else {
		p := new(signature.PublicKey)
		k = p
		want = want || id == 1 && l == 32 && n >= 32 || id == 2 && l == 33 && n >= 33
		if text {
			err = p.UnmarshalText([]byte("npub" + common.Encode32(signature.AddChecksum(b))))
		} else {
			err = unmarshal(p, b, form)
		}
	}
	vh.Assert("accepted exactly if well-formed", (err == nil) == want)
	if err == nil {
		okKey(k)
	}
}

// CheckSigContainer: the same for signatures.
func CheckSigContainer() {
	form := vh.Pick("form", 0, 2)
	text := form == 1
	n := vh.Pick("n", 0, 72)
	id := vh.U8("id")
	data := vh.Bytes("data", n)
	b := container(id, data)
	s := new(signature.Signature)
	var err error
	if text {
		err = s.UnmarshalText([]byte(common.Encode32(signature.AddChecksum(b))))
	} else {
		err = unmarshal(s, b, form)
	}
	want := id == 0 && n == 0 || id == 1 && n == 64 || id == 2
	vh.Assert("accepted exactly if well-formed", (err == nil) == want)
	if err == nil {
		okSig(s)
	}
}

// CheckText: any text.
func CheckText() {
	what := vh.Pick("what", 0, 4)
	n := vh.Pick("n", 0, 8)
	if what < 2 || what > 2 {
		n += vh.Pick("prefix", 0, 1) * 4
	}
	t := vh.Bytes("t", n)
	ascii(t)
	switch what {
	case 0:
		k := new(signature.PublicKey)
		err := k.UnmarshalText(t)
		vh.Assert("prefix", err != nil || n >= 4 && string(t[:4]) == "npub")
		if err == nil {
			okKey(k)
		}
	case 1:
		k := new(signature.PrivateKey)
		err := k.UnmarshalText(t)
		vh.Assert("prefix", err != nil || n >= 4 && string(t[:4]) == "npvt")
		if err == nil {
			okKey(k)
		}
	case 2:
		s := new(signature.Signature)
		if s.UnmarshalText(t) == nil {
			okSig(s)
		}
	case 3:
		k, err := signature.ParseKey(string(t))
		if err == nil {
			okKey(k)
		}
	case 4:
		k := new(key.ExtendedKey)
		err := k.UnmarshalText(t)
		vh.Assert("too short", err != nil)
		vh.Assert("no key left", len(k.Bytes()) == 0)
	}
}

// CheckChecksum: text with a damaged checksum is refused.
func CheckChecksum() {
	what := vh.Pick("what", 0, 2)
	n := vh.Pick("n", 0, 40)
	b := vh.Bytes("b", n)
	c := signature.AddChecksum(b)
	c[len(c)-1-vh.Pick("at", 0, 2)] ^= vh.U8("x") | 1<<uint(vh.Pick("bit", 0, 7))
	t := common.Encode32(c)
	switch what {
	case 0:
		vh.Assert("public refused", new(signature.PublicKey).UnmarshalText([]byte("npub"+t)) != nil)
	case 1:
		vh.Assert("private refused", new(signature.PrivateKey).UnmarshalText([]byte("npvt"+t)) != nil)
	case 2:
		vh.Assert("signature refused", new(signature.Signature).UnmarshalText([]byte(t)) != nil)
	}
}
