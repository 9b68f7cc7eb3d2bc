// Package sha3 models the extendable-output functions as ideal functions of
// everything written, one per 32-byte block of output.
package sha3

import (
	real "golang.org/x/crypto/sha3"
	"hash"
	"io"

	"github.com/coniks-sys/coniks-go/internal/verifsym"
)

// ShakeHash is the interface of the real package.
type ShakeHash interface {
	io.Writer
	io.Reader
	Clone() ShakeHash
	Reset()
}

type state struct {
	fam  string
	data []byte
	off  int
	rate int
	size int
}

var famBlock = [8]string{"/0", "/1", "/2", "/3", "/4", "/5", "/6", "/7"}

func block(fam string, data []byte, i int) []byte {
	name := fam
	if i < len(famBlock) {
		name += famBlock[i]
	} else {
		name += "/x"
		data = append(append([]byte{byte(i), byte(i >> 8)}, data...))
	}
	return verifsym.UFn(name, data, 32, func(d []byte, n int) []byte {
		out := make([]byte, 32*(i+1))
		squeeze(fam, data, out)
		return out[32*i:]
	})
}

func squeeze(fam string, data, out []byte) {
	switch fam {
	case "shake128":
		real.ShakeSum128(out, data)
	case "shake256":
		real.ShakeSum256(out, data)
	case "sha3-256":
		d := real.Sum256(data)
		copy(out, d[:])
	case "sha3-512":
		d := real.Sum512(data)
		copy(out, d[:])
	}
}

// NewShake128 is SHAKE128.
func NewShake128() ShakeHash { return &state{fam: "shake128", rate: 168, size: 32} }

// NewShake256 is SHAKE256.
func NewShake256() ShakeHash { return &state{fam: "shake256", rate: 136, size: 64} }

// New256 is SHA3-256.
func New256() hash.Hash { return &state{fam: "sha3-256", rate: 136, size: 32} }

// New512 is SHA3-512.
func New512() hash.Hash { return &state{fam: "sha3-512", rate: 72, size: 64} }

func (s *state) Write(p []byte) (int, error) {
	if s.off > 0 {
		panic("sha3: Write after Read")
	}
	s.data = append(s.data, p...)
	return len(p), nil
}

func (s *state) Read(out []byte) (int, error) {
	for n := 0; n < len(out); {
		b := block(s.fam, s.data, s.off/32)
		k := copy(out[n:], b[s.off%32:])
		n += k
		s.off += k
	}
	return len(out), nil
}

func (s *state) Sum(in []byte) []byte {
	if s.off > 0 {
		panic("sha3: Sum after Read")
	}
	d := &state{fam: s.fam, data: s.data}
	out := make([]byte, s.size)
	d.Read(out)
	return append(in, out...)
}

func (s *state) Reset()         { s.data = nil; s.off = 0 }
func (s *state) Size() int      { return s.size }
func (s *state) BlockSize() int { return s.rate }

func (s *state) Clone() ShakeHash {
	c := *s
	c.data = append([]byte(nil), s.data...)
	return &c
}

// ShakeSum128 writes the output of SHAKE128 of data into h.
func ShakeSum128(h, data []byte) {
	s := NewShake128()
	s.Write(data)
	s.Read(h)
}

// ShakeSum256 writes the output of SHAKE256 of data into h.
func ShakeSum256(h, data []byte) {
	s := NewShake256()
	s.Write(data)
	s.Read(h)
}

// Sum256 is SHA3-256.
func Sum256(data []byte) (out [32]byte) {
	copy(out[:], block("sha3-256", data, 0))
	return
}

// Sum512 is SHA3-512.
func Sum512(data []byte) (out [64]byte) {
	copy(out[:], block("sha3-512", data, 0))
	copy(out[32:], block("sha3-512", data, 1))
	return
}
