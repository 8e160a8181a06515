// Package ed25519 stands in for the Ed25519 implementation in the scratch copy
// the checks build. It is the real one, except that a case being replayed may
// carry verdicts the solver chose (an input "!edverify.N" holding
// hex(public,signature,message):0 or 1): no signature is known that passes for
// given bytes.
package ed25519

import (
	"crypto"
	real "crypto/ed25519"
	"encoding/hex"
	"io"
	"strings"

	"github.com/ndau/ndaumath/verifh/vh"
)

const (
	PublicKeySize  = real.PublicKeySize
	PrivateKeySize = real.PrivateKeySize
	SignatureSize  = real.SignatureSize
	SeedSize       = real.SeedSize
)

type PublicKey = real.PublicKey
type PrivateKey = real.PrivateKey
type Options = real.Options

var _ crypto.Signer = PrivateKey(nil)

func GenerateKey(rand io.Reader) (PublicKey, PrivateKey, error) { return real.GenerateKey(rand) }

func NewKeyFromSeed(seed []byte) PrivateKey { return real.NewKeyFromSeed(seed) }

func Sign(privateKey PrivateKey, message []byte) []byte { return real.Sign(privateKey, message) }

func Verify(publicKey PublicKey, message, sig []byte) bool {
	in := ""
	for k, v := range vh.Injected() {
		if !strings.HasPrefix(k, "!edverify") {
			continue
		}
		if in == "" {
			in = hex.EncodeToString(publicKey) + hex.EncodeToString(sig) + hex.EncodeToString(message) + ":"
		}
		if strings.HasPrefix(v, in) && len(sig) == SignatureSize && len(publicKey) == PublicKeySize {
			return v[len(in):] == "1"
		}
	}
	return real.Verify(publicKey, message, sig)
}
