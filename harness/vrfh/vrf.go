// Package vrfh checks the VRF over a small cyclic group with a cofactor.
package vrfh

import (
	"bytes"

	group "github.com/coniks-sys/coniks-go/crypto/verifgroup"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/sha3"
)

func shake(n int, parts ...[]byte) []byte {
	h := sha3.NewShake256()
	for _, p := range parts {
		h.Write(p)
	}
	out := make([]byte, n)
	h.Read(out)
	return out
}

func enc(l uint16) []byte {
	b := group.Encode(l)
	return b[:]
}

// point is the logarithm of H1(m).
func point(m []byte) uint16 {
	return 8 * group.Scalar(shake(32, m)) % group.Group
}

func message(name string) []byte {
	n := 2
	l := []int{136}
	if vs.Thorough() {
		n = 5
		l = []int{16, 31, 32, 33, 64, 104, 136, 200}
	}
	k := vs.Choose(name+"len", n+1+len(l))
	if k > n {
		k = l[k-n-1]
	}
	return vs.Bytes(name, k)
}

func key() vrf.PrivateKey {
	sk, err := vrf.GenerateKey(bytes.NewReader(vs.Bytes("seed", 32)))
	vs.Assert(err == nil, "a key is generated")
	vs.Assert(len(sk) == vrf.PrivateKeySize, "size of the private key")
	return sk
}

// Honest: what Prove makes, Verify accepts.
func Honest() {
	sk := key()
	sk0 := append([]byte(nil), sk...)
	pk, ok := sk.Public()
	vs.Assert(ok, "the key has a public half")
	pk0 := append([]byte(nil), pk...)
	m := message("m")
	m0 := append([]byte(nil), m...)
	// In the real group the secret is 2^254 + 8k, never a multiple of the
	// order but for a negligible part of the keys, and H1 hits the identity
	// as rarely.
	p, ok := group.Decode(pk)
	vs.Assert(ok, "the public key is an encoding")
	vs.Assume(p != 0)
	vs.Assume(point(m) != 0)
	idx, proof := sk.Prove(m)
	vs.Assert(len(idx) == vrf.Size && len(proof) == vrf.ProofSize, "sizes of index and proof")
	vs.Assert(bytes.Equal(m, m0), "Prove leaves the message alone")
	vs.Assert(bytes.Equal(sk, sk0), "Prove leaves the key alone")
	vs.Assert(bytes.Equal(sk.Compute(m), idx), "Prove and Compute agree")
	i0, p0 := append([]byte(nil), idx...), append([]byte(nil), proof...)
	vs.Assert(pk.Verify(m, idx, proof), "an honest proof verifies")
	vs.Assert(bytes.Equal(m, m0), "the message is left alone")
	vs.Assert(bytes.Equal(idx, i0), "Verify leaves the index alone")
	vs.Assert(bytes.Equal(proof, p0), "Verify leaves the proof alone")
	vs.Assert(bytes.Equal(pk, pk0), "Verify leaves the key alone")
	idx2, proof2 := sk.Prove(m)
	vs.Assert(bytes.Equal(idx, idx2), "the index is repeatable")
	vs.Assert(bytes.Equal(proof, proof2), "the proof is repeatable")
	vs.Assert(bytes.Equal(sk.Compute(m), idx), "the value is repeatable")
	vs.Assert(pk.Verify(m, idx, proof), "verification is repeatable")
	vs.Cover("verified")
}

// Two: two messages proved one after the other under one key do not
// disturb each other.
func Two() {
	sk := key()
	pk, _ := sk.Public()
	p, _ := group.Decode(pk)
	vs.Assume(p != 0)
	m1, m2 := vs.Bytes("m1", vs.Choose("len1", 2)), vs.Bytes("m2", vs.Choose("len2", 2))
	vs.Assume(point(m1) != 0)
	vs.Assume(point(m2) != 0)
	i1, p1 := sk.Prove(m1)
	i2, p2 := sk.Prove(m2)
	vs.Assert(pk.Verify(m1, i1, p1), "the first proof verifies")
	vs.Assert(pk.Verify(m2, i2, p2), "the second proof verifies")
	ok := pk.Verify(m2, i1, p1)
	vs.Cover("crossed")
	vs.Assert(vs.Implies(ok, bytes.Equal(m1, m2)), "a proof serves its own message only")
}

// Accepts: Verify accepts exactly what the definition says.
func Accepts() {
	pk := vrf.PublicKey(vs.Bytes("pk", 32))
	idx := vs.Bytes("index", 32)
	proof := vs.Bytes("proof", 96)
	m := message("m")
	s, t, ii := proof[:32], proof[32:64], proof[64:]

	ok := pk.Verify(m, idx, proof)

	valid := func(b []byte) bool {
		l, ok := group.Decode(b)
		c := enc(l)
		return vs.And(vs.And(ok, bytes.Equal(b, c)), vs.And(l%8 == 0, l != 0))
	}
	p, _ := group.Decode(pk)
	v, _ := group.Decode(ii)
	h := point(m)
	sv, tv := group.Scalar(s), group.Scalar(t)
	A := enc(sv*p + tv*group.Base)
	B := enc(sv*v + tv*h)
	c := shake(64, enc(group.Base), enc(h), pk, ii, A, B, m)
	var red [32]byte
	red[0] = byte(group.Scalar(c) % group.Order)
	want := vs.And(vs.And(valid(pk), valid(ii)),
		vs.And(bytes.Equal(idx, shake(32, ii, m)), bytes.Equal(s, red[:])))
	if ok {
		vs.Cover("accepted")
	} else {
		vs.Cover("rejected")
	}
	vs.Assert(vs.Implies(ok, valid(pk)), "only valid public keys are accepted")
	vs.Assert(vs.Implies(ok, valid(ii)), "only valid group elements are accepted")
	vs.Assert(vs.Implies(ok, bytes.Equal(idx, shake(32, ii, m))), "the index is the hash of element and message")
	vs.Assert(vs.Implies(ok, bytes.Equal(s, red[:])), "the challenge covers base, point, key, element, commitments and message")
	vs.Assert(vs.Implies(want, ok), "what the definition accepts is accepted")
}

// Sizes: key, index and proof of any length are handled, and only the exact
// lengths can be accepted.
func Sizes() {
	near := func(name string, n int) int {
		l := []int{0, 1, n - 1, n, n + 1, 2 * n}
		return l[vs.Choose(name, len(l))]
	}
	a, b, c := near("pklen", 32), near("indexlen", 32), near("prooflen", 96)
	var pk vrf.PublicKey
	if a > 0 || vs.Bool("empty") {
		pk = vs.Bytes("pk", a)
	}
	ok := pk.Verify(vs.Bytes("m", vs.Choose("mlen", 2)), vs.Bytes("index", b), vs.Bytes("proof", c))
	if a != 32 || b != 32 || c != 96 {
		vs.Cover("wrong length")
		vs.Assert(!ok, "only the exact lengths are accepted")
	}
}
