// Package ed25519 models the signature scheme: public keys are an ideal
// function of the seed, signatures an ideal function of key and message.
package ed25519

import (
	"bytes"
	"crypto"
	"io"

	"github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/rand"
)

const (
	PublicKeySize  = 32
	PrivateKeySize = 64
	SignatureSize  = 64
	SeedSize       = 32
)

type PublicKey []byte
type PrivateKey []byte

type badKey string

func (priv PrivateKey) Public() crypto.PublicKey {
	pk := make([]byte, PublicKeySize)
	copy(pk, priv[32:])
	return PublicKey(pk)
}

func (priv PrivateKey) Seed() []byte { return append([]byte(nil), priv[:32]...) }

func (priv PrivateKey) Sign(r io.Reader, message []byte, opts crypto.SignerOpts) ([]byte, error) {
	return Sign(priv, message), nil
}

func (pub PublicKey) Equal(x crypto.PublicKey) bool {
	y, ok := x.(PublicKey)
	return ok && bytes.Equal(pub, y)
}

func GenerateKey(r io.Reader) (PublicKey, PrivateKey, error) {
	if r == nil {
		r = rand.Reader
	}
	seed := make([]byte, SeedSize)
	if _, err := io.ReadFull(r, seed); err != nil {
		return nil, nil, err
	}
	sk := NewKeyFromSeed(seed)
	return PublicKey(append([]byte(nil), sk[32:]...)), sk, nil
}

func NewKeyFromSeed(seed []byte) PrivateKey {
	if len(seed) != SeedSize {
		panic("ed25519: bad seed length")
	}
	pk := verifsym.UF("edpk", seed, 32)
	return PrivateKey(append(append(make([]byte, 0, 64), seed...), pk...))
}

// Sig is the only signature of the message that verifies under the key.
func Sig(pk, message []byte) []byte {
	return verifsym.UF("edsig", append(append(make([]byte, 0, 32+len(message)), pk...), message...), 64)
}

// Signed counts the signatures; OnSign, if set, is called for each.
var (
	Signed int
	OnSign func()
)

func Sign(priv PrivateKey, message []byte) []byte {
	Signed++
	if OnSign != nil {
		OnSign()
	}
	if len(priv) != PrivateKeySize {
		panic("ed25519: bad private key length")
	}
	return Sig(verifsym.UF("edpk", priv[:32], 32), message)
}

func Verify(pub PublicKey, message, sig []byte) bool {
	if len(pub) != PublicKeySize {
		panic("ed25519: bad public key length")
	}
	if len(sig) != SignatureSize {
		return false
	}
	return bytes.Equal(sig, Sig(pub, message))
}
