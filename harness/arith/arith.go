// Package arith checks field and scalar arithmetic against the integers.
package arith

import (
	curve "github.com/coniks-sys/coniks-go/crypto/verifcurve"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
)

const (
	p     = "57896044618658097711785492504343953926634992332820282019728792003956564819949"
	order = "7237005577332262213973186563042994240857116359379907606001950938285454250989"
	// order - 1
	last = "7237005577332262213973186563042994240857116359379907606001950938285454250988"
)

var names = [10]string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

// limbs of a field element, |even| <= even, |odd| <= odd.
func element(name string, even, odd int) (f curve.Fe) {
	for i := range f {
		b := even
		if i%2 == 1 {
			b = odd
		}
		f[i] = int32(vs.Int(name+names[i], -b, b))
	}
	return
}

var shifts = []int{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

func num(f *curve.Fe) vs.Num {
	var n vs.Num
	for i := range f {
		n.Parts = append(n.Parts, int64(f[i]))
	}
	n.Shift = shifts
	return n
}

func small(i int64) vs.Num { return vs.Num{Parts: []int64{i}, Shift: []int{0}} }

func prod(n ...vs.Num) []vs.Num { return n }

// bound asserts |even limbs| <= even and |odd limbs| <= odd.
func bound(msg string, f *curve.Fe, even, odd string) {
	for i := range f {
		b := even
		if i%2 == 1 {
			b = odd
		}
		vs.Within(msg, small64(int64(f[i])), "-"+b, b)
	}
}

func small64(i int64) vs.Num { return vs.Num{Parts: []int64{i}, Shift: []int{0}} }

const (
	// 1.1*2^26, 1.1*2^25: inputs of products
	wideE, wideO = 73819750, 36909875
	// 1.1*2^25, 1.1*2^24: results
	tightE, tightO = 36909875, 18454937
	sTightE        = "36909875"
	sTightO        = "18454937"
)

// Mul: products are exact, and so is the squaring.
func Mul() {
	f, g := element("f", wideE, wideO), element("g", wideE, wideO)
	f0, g0 := f, g
	var h curve.Fe
	curve.Mul(&h, &f, &g)
	vs.Congruent("the product is exact", p, prod(num(&f0), num(&g0)), prod(small(-1), num(&h)))
	bound("the product is reduced", &h, sTightE, sTightO)
	vs.Assert(f == f0 && g == g0, "the factors are left alone")
	vs.Cover("product")
}

// Aliased: results may replace an operand.
func Aliased() {
	f, g := element("f", wideE, wideO), element("g", wideE, wideO)
	h, k := f, g
	curve.Mul(&h, &h, &g)
	vs.Congruent("the product is exact when it replaces the first factor", p, prod(num(&f), num(&g)), prod(small(-1), num(&h)))
	curve.Mul(&k, &f, &k)
	vs.Congruent("the product is exact when it replaces the second factor", p, prod(num(&f), num(&g)), prod(small(-1), num(&k)))
	vs.Cover("product")
}

// Square: squares are exact.
func Square() {
	f := element("f", wideE, wideO)
	f0 := f
	var h, k curve.Fe
	curve.Square(&h, &f)
	vs.Congruent("the square is exact", p, prod(num(&f0), num(&f0)), prod(small(-1), num(&h)))
	bound("the square is reduced", &h, sTightE, sTightO)
	curve.Square2(&k, &f)
	vs.Congruent("twice the square is exact", p, prod(small(2), num(&f0), num(&f0)), prod(small(-1), num(&k)))
	bound("twice the square is reduced", &k, sTightE, sTightO)
	vs.Assert(f == f0, "the operand is left alone")
	vs.Cover("square")
}

// Linear: sums, differences, negatives.
func Linear() {
	f, g := element("f", tightE, tightO), element("g", tightE, tightO)
	f0, g0 := f, g
	var h curve.Fe
	curve.Add(&h, &f, &g)
	vs.Congruent("the sum is exact", "0", prod(num(&f0)), prod(num(&g0)), prod(small(-1), num(&h)))
	bound("the sum is in range", &h, "73819750", "36909875")
	curve.Sub(&h, &f, &g)
	vs.Congruent("the difference is exact", "0", prod(num(&f0)), prod(small(-1), num(&g0)), prod(small(-1), num(&h)))
	bound("the difference is in range", &h, "73819750", "36909875")
	curve.Neg(&h, &f)
	vs.Congruent("the negative is exact", "0", prod(num(&f0)), prod(num(&h)))
	curve.Copy(&h, &f)
	vs.Assert(h == f0, "the copy is exact")
	curve.Zero(&h)
	vs.Assert(h == curve.Fe{}, "zero")
	curve.One(&h)
	vs.Assert(h == curve.Fe{1}, "one")
	h = g
	curve.CMove(&h, &f, 0)
	vs.Assert(h == g0, "nothing is moved")
	curve.CMove(&h, &f, 1)
	vs.Assert(h == f0, "the operand is moved")
	vs.Assert(f == f0 && g == g0, "the operands are left alone")
	vs.Cover("sum")
}

func reversed(name string, n int) []byte {
	b := vs.Bytes(name, n)
	for i := 0; i < n/2; i++ {
		b[i], b[n-1-i] = b[n-1-i], b[i]
	}
	return b
}

// Decode: decoding ignores the top bit and is exact.
func Decode() {
	b := reversed("s", 32)
	var s [32]byte
	copy(s[:], b)
	var h curve.Fe
	curve.FromBytes(&h, &s)
	s[31] &= 127
	vs.Congruent("decoding is exact", p, prod(vs.Num{LE: s[:]}), prod(small(-1), num(&h)))
	bound("the decoded element is reduced", &h, sTightE, sTightO)
	vs.Cover("decoded")
}

// Encode: the encoding is the one canonical number.
func Encode() {
	f := element("f", tightE, tightO)
	f0 := f
	var s [32]byte
	curve.ToBytes(&s, &f)
	vs.Congruent("encoding is exact", p, prod(num(&f0)), prod(small(-1), vs.Num{LE: s[:]}))
	vs.Within("the encoding is canonical", vs.Num{LE: s[:]}, "0", "57896044618658097711785492504343953926634992332820282019728792003956564819948")
	vs.Cover("encoded")
}

// ScalarReduce: 512-bit numbers are reduced modulo the order.
func ScalarReduce() {
	b := reversed("s", 64)
	var s [64]byte
	copy(s[:], b)
	var out [32]byte
	curve.ScReduce(&out, &s)
	vs.Congruent("the reduction is exact", order, prod(vs.Num{LE: b}), prod(small(-1), vs.Num{LE: out[:]}))
	vs.Within("the result is reduced", vs.Num{LE: out[:]}, "0", last)
	vs.Cover("reduced")
}

// ScalarMulAdd: a*b+c modulo the order.
func ScalarMulAdd() {
	x, y, z := reversed("a", 32), reversed("b", 32), reversed("c", 32)
	var a, b, c, s [32]byte
	copy(a[:], x)
	copy(b[:], y)
	copy(c[:], z)
	curve.ScMulAdd(&s, &a, &b, &c)
	vs.Congruent("the result is exact", order, prod(vs.Num{LE: x}, vs.Num{LE: y}), prod(vs.Num{LE: z}), prod(small(-1), vs.Num{LE: s[:]}))
	vs.Within("the result is reduced", vs.Num{LE: s[:]}, "0", last)
	vs.Cover("done")
}

// ScalarNeg: the order minus the scalar.
func ScalarNeg() {
	var s, r [32]byte
	copy(s[:], vs.Bytes("s", 32))
	s0 := s
	curve.ScNeg(&r, &s)
	l := curve.Order()
	sum, carry := [32]byte{}, 0
	for i := range r {
		n := int(r[i]) + int(s0[i]) + carry
		sum[i], carry = byte(n), n>>8
	}
	vs.Assert(sum == l, "scalar and negative add up to the order")
	vs.Assert(s == s0, "the scalar is left alone")
	vs.Cover("negated")
}

// any is 1 if a bit is set.
func any(x byte) int32 {
	x |= x >> 4
	x |= x >> 2
	x |= x >> 1
	return int32(x & 1)
}

// Tests: sign and zero tests look at the canonical encoding.
func Tests() {
	f := element("f", tightE, tightO)
	var s [32]byte
	curve.ToBytes(&s, &f)
	vs.Assert(curve.IsNegative(&f) == s[0]&1, "the sign is the lowest bit of the encoding")
	or := byte(0)
	for _, b := range s {
		or |= b
	}
	vs.Assert(curve.IsNonZero(&f) == any(or), "an element is zero if its encoding is")
	b := vs.Bytes("b", 1)[0]
	vs.Assert(any(b) <= 1 && (any(b) == 1) == (b != 0), "any bit counts")
	vs.Cover("tested")
}
