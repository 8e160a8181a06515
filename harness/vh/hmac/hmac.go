// Package hmac stands in for crypto/hmac in the scratch copy the checks build.
// It computes the real HMAC, unless the case being replayed carries outputs the
// solver chose for it (an input "!hmac.N" holding hex(len,key,data):hex(out)):
// a violation may need an output no known input has.
package hmac

import (
	"bytes"
	real "crypto/hmac"
	"encoding/hex"
	"hash"
	"sort"
	"strings"

	"github.com/ndau/ndaumath/verifh/vh"
)

// Equal is the real one.
func Equal(a, b []byte) bool { return real.Equal(a, b) }

type mac struct {
	hash.Hash
	key, data []byte
}

// New makes the hash.
func New(h func() hash.Hash, key []byte) hash.Hash {
	return &mac{Hash: real.New(h, key), key: append([]byte(nil), key...)}
}

func (m *mac) Write(p []byte) (int, error) {
	m.data = append(m.data, p...)
	return m.Hash.Write(p)
}

func (m *mac) Reset() {
	m.data = nil
	m.Hash.Reset()
}

func (m *mac) Sum(b []byte) []byte {
	var loose []byte
	inj := vh.Injected()
	var names []string
	for k := range inj {
		if strings.HasPrefix(k, "!hmac") {
			names = append(names, k)
		}
	}
	sort.Strings(names) // the same answer every time
	for _, k := range names {
		v := inj[k]
		i := strings.IndexByte(v, ':')
		if i < 0 {
			continue
		}
		in, e1 := hex.DecodeString(v[:i])
		out, e2 := hex.DecodeString(v[i+1:])
		if e1 != nil || e2 != nil || len(in) == 0 || len(in) < 1+int(in[0]) || len(out) != m.Size() {
			continue
		}
		key, data := in[1:1+int(in[0])], in[1+int(in[0]):]
		if !bytes.Equal(key, m.key) || len(data) != len(m.data) {
			continue
		}
		if bytes.Equal(data, m.data) {
			return append(b, out...)
		}
		// public keys are abstract for the solver: match the index that follows
		if n := len(data); n == 37 && data[0] != 0 && m.data[0] != 0 && bytes.Equal(data[n-4:], m.data[n-4:]) {
			if loose == nil {
				loose = out
			}
		}
	}
	if loose != nil {
		return append(b, loose...)
	}
	return m.Hash.Sum(b)
}
