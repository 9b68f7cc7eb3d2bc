// Package verifcurve re-exports the curve arithmetic to the harnesses.
package verifcurve

import (
	"github.com/coniks-sys/coniks-go/crypto/internal/ed25519/edwards25519"
)

type (
	Fe        = edwards25519.FieldElement
	Extended  = edwards25519.ExtendedGroupElement
	Completed = edwards25519.CompletedGroupElement
	Proj      = edwards25519.ProjectiveGroupElement
)

func Zero(f *Fe)                   { edwards25519.FeZero(f) }
func One(f *Fe)                    { edwards25519.FeOne(f) }
func Add(h, f, g *Fe)              { edwards25519.FeAdd(h, f, g) }
func Sub(h, f, g *Fe)              { edwards25519.FeSub(h, f, g) }
func Neg(h, f *Fe)                 { edwards25519.FeNeg(h, f) }
func Copy(h, f *Fe)                { edwards25519.FeCopy(h, f) }
func CMove(h, f *Fe, b int32)      { edwards25519.FeCMove(h, f, b) }
func Mul(h, f, g *Fe)              { edwards25519.FeMul(h, f, g) }
func Square(h, f *Fe)              { edwards25519.FeSquare(h, f) }
func Square2(h, f *Fe)             { edwards25519.FeSquare2(h, f) }
func FromBytes(h *Fe, s *[32]byte) { edwards25519.FeFromBytes(h, s) }
func ToBytes(s *[32]byte, h *Fe)   { edwards25519.FeToBytes(s, h) }
func IsNegative(f *Fe) byte        { return edwards25519.FeIsNegative(f) }
func IsNonZero(f *Fe) int32        { return edwards25519.FeIsNonZero(f) }

func ScMulAdd(s, a, b, c *[32]byte)       { edwards25519.ScMulAdd(s, a, b, c) }
func ScReduce(out *[32]byte, s *[64]byte) { edwards25519.ScReduce(out, s) }
func ScNeg(r, s *[32]byte)                { edwards25519.ScNeg(r, s) }

// Order is the encoding of the order of the base point.
func Order() [32]byte { return edwards25519.BasePointOrder }
