package c32

import (
	"bytes"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/verifh/common"
	"github.com/ndau/ndaumath/verifh/vh"
)

type elem struct {
	id   uint64
	hard bool
}

// parse reads a path: "/" alone or elements of a slash, digits and an optional
// apostrophe, with spaces anywhere ignored.
func parse(s string) (p []elem, ok bool) {
	var t []byte
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' {
			t = append(t, s[i])
		}
	}
	if len(t) == 1 && t[0] == '/' {
		return nil, true
	}
	if len(t) == 0 {
		return nil, false
	}
	for i := 0; i < len(t); {
		if t[i] != '/' {
			return nil, false
		}
		i++
		e := elem{}
		start := i
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			e.id = e.id*10 + uint64(t[i]-'0')
			i++
		}
		if i == start || e.id > 1<<32-1 {
			return nil, false
		}
		if i < len(t) && t[i] == '\'' {
			e.hard = true
			i++
		}
		p = append(p, e)
	}
	return p, true
}

func related(p, c []elem) bool {
	if len(c) <= len(p) {
		return false
	}
	for i := range p {
		if p[i].hard != c[i].hard || p[i].id != c[i].id {
			return false
		}
	}
	return true
}

func same(a, b *key.ExtendedKey) {
	vh.Assert("same key", bytes.Equal(a.Bytes(), b.Bytes()) && a.IsPrivate() == b.IsPrivate())
	vh.Assert("same depth and fingerprint", a.Depth() == b.Depth() && a.ParentFingerprint() == b.ParentFingerprint())
	x, err1 := a.AsSignatureKey()
	y, err2 := b.AsSignatureKey()
	vh.Assert("same chain code and index", err1 == nil && err2 == nil && bytes.Equal(x.ExtraBytes(), y.ExtraBytes()))
}

// check compares a derivation with the same steps taken one at a time.
func check(k *key.ExtendedKey, parent, child string) {
	p, ok1 := parse(parent)
	c, ok2 := parse(child)
	if !ok1 || !ok2 || !related(p, c) {
		d, err := k.DeriveFrom(parent, child)
		vh.Assert("malformed or unrelated paths are errors", err != nil && d == nil)
		return
	}
	want := k
	for _, e := range c[len(p):] {
		i := uint32(e.id)
		if e.hard {
			if e.id >= 1<<31 {
				want = nil
				break
			}
			i += 1 << 31
		}
		if k.IsPrivate() || i < 1<<31 {
			common.Ordinary(want, i)
		}
		var err error
		want, err = want.Child(i)
		if err != nil {
			want = nil
			break
		}
	}
	d, err := k.DeriveFrom(parent, child)
	if want == nil {
		vh.Assert("a step that fails is an error", err != nil && d == nil)
		return
	}
	vh.Assert("derives", err == nil && d != nil)
	if err != nil || d == nil {
		return
	}
	vh.Cover("derived")
	same(d, want)
}

// CheckAnyChild: every child path of a few bytes, from the root.
func CheckAnyChild() {
	vh.NoMerge()
	l := 5
	if vh.Deep() {
		l = 7
	}
	s := vh.String("child", vh.Pick("len", 0, l))
	check(common.PublicKey(), "/", s)
}

// CheckAnyParent: every parent path of a few bytes.
func CheckAnyParent() {
	vh.NoMerge()
	l := 5
	if vh.Deep() {
		l = 7
	}
	s := vh.String("parent", vh.Pick("len", 0, l))
	check(common.PublicKey(), s, "/4'/12/7")
}

func number(name string, n int) string {
	b := vh.Bytes(name, n)
	for _, c := range b {
		vh.Assume(c >= '0' && c <= '9')
	}
	return string(b)
}

// CheckRange: one step with a number of any size.
func CheckRange() {
	vh.NoMerge()
	n := vh.Pick("digits", 1, 11)
	vh.Assume(vh.Deep() || n == 1 || n >= 10)
	h := vh.Pick("hard", 0, 1)
	s := "/" + number("n", n)
	if h == 1 {
		s += "'"
	}
	check(common.PrivateKey(), "/", s)
}

// CheckPrefix: up to two elements of one digit as parent, up to three as child.
func CheckPrefix() {
	vh.NoMerge()
	np := vh.Pick("parent", 0, 2)
	nc := vh.Pick("child", 1, 3)
	hp := vh.Pick("hardp", 0, 1<<uint(np)-1)
	hc := vh.Pick("hardc", 0, 1<<uint(nc)-1)
	private := vh.Pick("private", 0, 1) == 1
	build := func(name string, n, h int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += "/" + number(name+string(rune('0'+i)), 1)
			if h>>uint(i)&1 == 1 {
				s += "'"
			}
		}
		if n == 0 {
			return "/"
		}
		return s
	}
	p, c := build("p", np, hp), build("c", nc, hc)
	if private {
		check(common.PrivateKey(), p, c)
	} else {
		check(common.PublicKey(), p, c)
	}
}

// CheckSpaces: spaces are ignored wherever they are; anything else is not.
func CheckSpaces() {
	vh.NoMerge()
	base := "/1'/23"
	at := vh.Pick("at", 0, len(base))
	c := vh.U8("c")
	s := base[:at] + string([]byte{c}) + base[at:]
	check(common.PublicKey(), "/1'", s)
}
