package conv

import (
	"bytes"

	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/utils"
)

// BytesBits: bytes to bits and back.
func BytesBits() {
	max := 3
	if vs.Thorough() {
		max = 33
	}
	n := vs.Choose("len", max+1)
	if !vs.Thorough() && n == max {
		n = 32
	}
	in := vs.Bytes("bytes", n)
	orig := append([]byte(nil), in...)
	bits := utils.ToBits(in)
	vs.Assert(len(bits) == 8*n, "ToBits returns 8 bits per byte")
	for i := range bits {
		want := in[i/8]&(0x80>>uint(i%8)) != 0
		vs.Assert(bits[i] == want, "bit i of ToBits is the i-th most significant bit")
		vs.Assert(utils.GetNthBit(in, uint32(i)) == want, "GetNthBit agrees with ToBits")
	}
	back := utils.ToBytes(bits)
	vs.Assert(bytes.Equal(back, in), "ToBytes(ToBits(x)) == x")
	vs.Assert(bytes.Equal(orig, in), "conversions leave their input alone")
	vs.Observe("back", back)
	vs.Cover("roundtrip")
}

// BitsBytes: bit lists of every length, padded with zeros.
func BitsBytes() {
	max := 18
	if vs.Thorough() {
		max = 66
	}
	n := vs.Choose("len", max+1)
	if !vs.Thorough() && n == max {
		n = 257
	}
	bits := make([]bool, n)
	for i := range bits {
		bits[i] = vs.Bool("bit")
	}
	bs := utils.ToBytes(bits)
	vs.Assert(len(bs) == (n+7)/8, "ToBytes returns ceil(n/8) bytes")
	for i := 0; i < len(bs)*8; i++ {
		want := i < n && bits[i]
		vs.Assert((bs[i/8]>>(7-uint(i)%8))&1 == 1 == want, "bit of ToBytes, zero padded")
	}
	vs.Observe("bs", bs)
	vs.Cover("padded")
}

// NthBit: a symbolic offset into an index.
func NthBit() {
	bs := vs.Bytes("bs", 32)
	off := vs.U32("off")
	vs.Assume(off < 256)
	got := utils.GetNthBit(bs, off)
	want := false
	for i := 0; i < 256; i++ {
		b := bs[i/8]&(0x80>>uint(i%8)) != 0
		want = vs.Or(want, vs.And(off == uint32(i), b))
	}
	vs.Assert(got == want, "GetNthBit at any offset")
	vs.Observe("got", got)
	vs.Cover("nthbit")
}

// Integers: little-endian encodings.
func Integers() {
	u := vs.U64("u")
	w := vs.U32("w")
	l := utils.LongToBytes(int64(u))
	ul := utils.ULongToBytes(u)
	u4 := utils.UInt32ToBytes(w)
	vs.Assert(len(l) == 8 && len(ul) == 8 && len(u4) == 4, "encoding sizes")
	var x, y uint64
	var z uint32
	for i := 0; i < 8; i++ {
		x |= uint64(l[i]) << (8 * uint(i))
		y |= uint64(ul[i]) << (8 * uint(i))
	}
	for i := 0; i < 4; i++ {
		z |= uint32(u4[i]) << (8 * uint(i))
	}
	vs.Assert(int64(x) == int64(u), "LongToBytes is little-endian and invertible")
	vs.Assert(y == u, "ULongToBytes is little-endian and invertible")
	vs.Assert(z == w, "UInt32ToBytes is little-endian and invertible")
	vs.Observe("l", l, ul, u4)
	vs.Cover("integers")
}

// Large: inputs of hundreds of bytes, every bit.
func Large() {
	l := []int{64, 257, 300}
	if vs.Thorough() {
		l = []int{64, 128, 255, 256, 257, 300, 513, 600}
	}
	n := l[vs.Choose("len", len(l))]
	in := vs.Bytes("bytes", n)
	// positions around every power of two and at both ends
	at := map[int]bool{0: true, 1: true, 8*n - 1: true, 8*n - 2: true}
	for p := 8; p < 8*n; p *= 2 {
		at[p-1], at[p] = true, true
		if p+1 < 8*n {
			at[p+1] = true
		}
		if p+8 < 8*n {
			at[p+8] = true
		}
	}
	bits := utils.ToBits(in)
	vs.Assert(len(bits) == 8*n, "ToBits returns 8 bits per byte")
	for i := 0; i < 8*n; i++ {
		if !at[i] {
			continue
		}
		want := in[i/8]&(0x80>>uint(i%8)) != 0
		vs.Assert(bits[i] == want, "bits of long inputs")
		vs.Assert(utils.GetNthBit(in, uint32(i)) == want, "single bits of long inputs")
	}
	cut := len(bits) - []int{0, 1, 8}[vs.Choose("cut", 3)]
	bs := utils.ToBytes(bits[:cut])
	vs.Assert(len(bs) == (cut+7)/8, "ToBytes of long lists returns ceil(n/8) bytes")
	for i := range bs {
		if at[8*i] && 8*i+8 <= cut {
			vs.Assert(bs[i] == in[i], "ToBytes of long lists")
		}
	}
	vs.Cover("large")
}
