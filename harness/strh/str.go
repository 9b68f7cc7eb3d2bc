package strh

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
)

func policies(tag string) *protocol.Policies {
	return &protocol.Policies{
		Version:       vs.Str("version"+tag, 5),
		HashID:        vs.Str("hash"+tag, 8),
		VrfPublicKey:  vrf.PublicKey(vs.Bytes("vrf"+tag, 32)),
		EpochDeadline: protocol.Timestamp(vs.U64("deadline" + tag)),
	}
}

func dirSTR(tag string) *protocol.DirSTR {
	p := policies(tag)
	return &protocol.DirSTR{
		SignedTreeRoot: &merkletree.SignedTreeRoot{
			TreeHash:        vs.Bytes("root"+tag, 32),
			Epoch:           vs.U64("epoch" + tag),
			PreviousEpoch:   vs.U64("prevepoch" + tag),
			PreviousSTRHash: vs.Bytes("prevhash"+tag, 32),
			Signature:       vs.Bytes("sig"+tag, 64),
			Ad:              p,
		},
		Policies: p,
	}
}

// Encoding: different tree roots have different signed encodings.
func Encoding() {
	a, b := dirSTR("A"), dirSTR("B")
	ma := vs.Snapshot(a)
	ea, eb := a.Serialize(), b.Serialize()
	same := vs.And(
		a.Epoch == b.Epoch,
		vs.Or(a.Epoch == 0, a.PreviousEpoch == b.PreviousEpoch),
		bytes.Equal(a.TreeHash, b.TreeHash),
		bytes.Equal(a.PreviousSTRHash, b.PreviousSTRHash),
		vs.StrEq(a.Policies.Version, b.Policies.Version),
		vs.StrEq(a.Policies.HashID, b.Policies.HashID),
		bytes.Equal(a.Policies.VrfPublicKey, b.Policies.VrfPublicKey),
		a.Policies.EpochDeadline == b.Policies.EpochDeadline)
	vs.Assert(vs.Iff(bytes.Equal(ea, eb), same), "encodings are equal iff all fields are")
	vs.Assert(bytes.Equal(a.SignedTreeRoot.Serialize(), ea), "both tree root types encode the same")
	// the encoding is a function of the content, whoever computes it first
	vs.Assert(bytes.Equal(ea, a.Serialize()), "the encoding is a function of the content")
	vs.Assert(vs.Same(ma, a), "encoding leaves the tree root alone")
	vs.Observe("enc", ea, eb)
	if a.Epoch == 0 {
		vs.Cover("epoch 0")
	} else {
		vs.Cover("later epoch")
	}
}

// Policy: the policies' encoding covers every field.
func Policy() {
	a, b := policies("A"), policies("B")
	same := vs.And(vs.StrEq(a.Version, b.Version), vs.StrEq(a.HashID, b.HashID),
		bytes.Equal(a.VrfPublicKey, b.VrfPublicKey), a.EpochDeadline == b.EpochDeadline)
	vs.Assert(vs.Iff(bytes.Equal(a.Serialize(), b.Serialize()), same), "policies encode equally iff all fields are equal")
	d := protocol.Timestamp(vs.U64("d"))
	k := vrf.PublicKey(vs.Bytes("k", 32))
	p := protocol.NewPolicies(d, k)
	vs.Assert(p.EpochDeadline == d && bytes.Equal(p.VrfPublicKey, k) && p.Version == protocol.Version && p.HashID == crypto.HashID, "new policies carry the given and the built-in values")
	vs.Cover("policy")
}

// Signed: a tree root is signed over exactly its encoding.
func Signed() {
	sk, err := sign.GenerateKey(nil)
	if err != nil {
		panic(err)
	}
	pk, _ := sk.Public()
	m, err := merkletree.NewMerkleTree()
	if err != nil {
		panic(err)
	}
	root := append([]byte(nil), merkletree.VerifRoot(m)...)
	ep := vs.U64("epoch")
	ph := vs.Bytes("prevhash", 32)
	p := policies("A")
	s := merkletree.NewSTR(sk, p, m, ep, ph)
	vs.Assert(s.Epoch == ep && bytes.Equal(s.PreviousSTRHash, ph) && bytes.Equal(s.TreeHash, root) && s.Ad == merkletree.AssocData(p), "the tree root carries what it was made from")
	if ep == 0 {
		vs.Assert(s.PreviousEpoch == 0, "epoch 0 has no predecessor")
		vs.Cover("first")
	} else {
		vs.Assert(s.PreviousEpoch == ep-1, "the previous epoch is one less")
		vs.Cover("later")
	}
	d := protocol.NewDirSTR(s)
	vs.Assert(d.Policies == p && d.SignedTreeRoot == s, "the wire form carries the same policies")
	vs.Assert(pk.Verify(d.Serialize(), s.Signature) && pk.Verify(s.Serialize(), s.Signature), "signer and verifier compute the same bytes")
	// any change invalidates the signature
	x := dirSTR("X")
	x.Signature = s.Signature
	same := vs.And(x.Epoch == s.Epoch, vs.Or(ep == 0, x.PreviousEpoch == s.PreviousEpoch), bytes.Equal(x.TreeHash, s.TreeHash),
		bytes.Equal(x.PreviousSTRHash, ph), vs.StrEq(x.Policies.Version, p.Version), vs.StrEq(x.Policies.HashID, p.HashID),
		bytes.Equal(x.Policies.VrfPublicKey, p.VrfPublicKey), x.Policies.EpochDeadline == p.EpochDeadline)
	vs.Assert(vs.Iff(pk.Verify(x.Serialize(), x.Signature), same), "a signature is for exactly one content")
}

// Promise: a temporary binding's encoding covers tree root, index and value.
func Promise() {
	n := 2
	if vs.Thorough() {
		n = 5
	}
	va, vb := vs.Bytes("valueA", vs.Choose("lenA", n+1)), vs.Bytes("valueB", vs.Choose("lenB", n+1))
	a := &protocol.TemporaryBinding{Index: vs.Bytes("indexA", 32), Value: va, Signature: vs.Bytes("tbsigA", 64)}
	b := &protocol.TemporaryBinding{Index: vs.Bytes("indexB", 32), Value: vb, Signature: vs.Bytes("tbsigB", 64)}
	sa, sb := vs.Bytes("sigA", 64), vs.Bytes("sigB", 64)
	sa0 := append([]byte(nil), sa...)
	m := vs.Snapshot(a)
	ea := a.Serialize(sa)
	eb := b.Serialize(sb)
	same := vs.And(bytes.Equal(sa, sb), bytes.Equal(a.Index, b.Index), bytes.Equal(va, vb))
	vs.Assert(vs.Iff(bytes.Equal(ea, eb), same), "promises encode equally iff tree root, index and value are equal")
	vs.Assert(bytes.Equal(a.Serialize(sa), ea), "the encoding is a function of the content")
	vs.Assert(bytes.Equal(sa, sa0) && vs.Same(m, a), "encoding leaves its inputs alone")
	vs.Cover("promise")
}

// Chain: C07.
func Chain() {
	lens := []int{32, 0, 31, 33, 64}
	mk := func(tag string, hl, sl int) *merkletree.SignedTreeRoot {
		return &merkletree.SignedTreeRoot{
			TreeHash:        vs.Bytes("root"+tag, 32),
			Epoch:           vs.U64("epoch" + tag),
			PreviousEpoch:   vs.U64("prevepoch" + tag),
			PreviousSTRHash: vs.Bytes("prevhash"+tag, hl),
			Signature:       vs.Bytes("sig"+tag, sl),
			Ad:              policies(tag),
		}
	}
	saved := mk("S", 32, []int{64, 0, 63, 65}[vs.Choose("siglen", 4)])
	next := mk("N", lens[vs.Choose("hashlen", len(lens))], 64)
	vs.Assume(saved.Epoch != 1<<64-1)
	ms, mn := vs.Snapshot(saved), vs.Snapshot(next)
	ok := next.VerifyHashChain(saved)
	want := vs.And(next.Epoch == saved.Epoch+1, next.PreviousEpoch == saved.Epoch,
		bytes.Equal(next.PreviousSTRHash, crypto.Digest(saved.Signature)))
	vs.Assert(vs.Iff(ok, want), "the chain verifies iff the new root directly extends the saved one")
	a := &protocol.DirSTR{SignedTreeRoot: next}
	b := &protocol.DirSTR{SignedTreeRoot: saved}
	vs.Assert(vs.Iff(a.VerifyHashChain(b), ok), "the wire form verifies alike")
	vs.Assert(vs.Same(ms, saved) && vs.Same(mn, next), "verification changes nothing")
	if ok {
		vs.Cover("extends")
	} else {
		vs.Cover("does not extend")
	}
}
