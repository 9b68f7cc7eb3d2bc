// Package adv builds messages as an adversary could send them.
package adv

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/ed25519"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
)

// WireSTR is any tree root as it could arrive in a message.
func WireSTR(tag string) *protocol.DirSTR {
	return &protocol.DirSTR{
		SignedTreeRoot: &merkletree.SignedTreeRoot{
			TreeHash:        vs.Bytes("root"+tag, 32),
			Epoch:           vs.U64("epoch" + tag),
			PreviousEpoch:   vs.U64("prevepoch" + tag),
			PreviousSTRHash: vs.Bytes("prevhash"+tag, 32),
			Signature:       vs.Bytes("sig"+tag, 64),
		},
		Policies: &protocol.Policies{
			Version:       vs.Str("version"+tag, 2),
			HashID:        vs.Str("hash"+tag, 2),
			VrfPublicKey:  vrf.PublicKey(vs.Bytes("vrf"+tag, 32)),
			EpochDeadline: protocol.Timestamp(vs.U64("deadline" + tag)),
		},
	}
}

func CopySTR(s *protocol.DirSTR) *protocol.DirSTR {
	t := *s.SignedTreeRoot
	t.TreeHash = append([]byte(nil), t.TreeHash...)
	t.PreviousSTRHash = append([]byte(nil), t.PreviousSTRHash...)
	t.Signature = append([]byte(nil), t.Signature...)
	p := *s.Policies
	p.VrfPublicKey = append(vrf.PublicKey(nil), p.VrfPublicKey...)
	return &protocol.DirSTR{SignedTreeRoot: &t, Policies: &p}
}

// le64 is the little-endian encoding, spelled out.
func le64(x uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(x >> uint(8*i))
	}
	return b
}

// Encoding is the signed content of a tree root, spelled out.
func Encoding(s *protocol.DirSTR) []byte {
	var b []byte
	b = append(b, le64(s.Epoch)...)
	if s.Epoch > 0 {
		b = append(b, le64(s.PreviousEpoch)...)
	}
	b = append(b, s.TreeHash...)
	b = append(b, s.PreviousSTRHash...)
	b = append(b, s.Policies.Version...)
	b = append(b, s.Policies.HashID...)
	b = append(b, s.Policies.VrfPublicKey...)
	return append(b, le64(uint64(s.Policies.EpochDeadline))...)
}

func Signed(pk sign.PublicKey, s *protocol.DirSTR) bool {
	return bytes.Equal(s.Signature, ed25519.Sig(pk, Encoding(s)))
}

func Extends(prev, s *protocol.DirSTR) bool {
	return vs.And(s.Epoch == prev.Epoch+1, s.PreviousEpoch == prev.Epoch,
		bytes.Equal(s.PreviousSTRHash, crypto.Digest(prev.Signature)))
}

func Equal(a, b *protocol.DirSTR) bool {
	return vs.And(a.Epoch == b.Epoch, a.PreviousEpoch == b.PreviousEpoch, bytes.Equal(a.TreeHash, b.TreeHash),
		bytes.Equal(a.PreviousSTRHash, b.PreviousSTRHash), bytes.Equal(a.Signature, b.Signature),
		vs.StrEq(a.Policies.Version, b.Policies.Version), vs.StrEq(a.Policies.HashID, b.Policies.HashID),
		bytes.Equal(a.Policies.VrfPublicKey, b.Policies.VrfPublicKey), a.Policies.EpochDeadline == b.Policies.EpochDeadline)
}

// Whole: no part is missing.
func Whole(s *protocol.DirSTR) bool {
	return s != nil && s.SignedTreeRoot != nil && s.Policies != nil
}

// Valid: the range is a signed linear extension of the verified tree root.
func Valid(pk sign.PublicKey, verified *protocol.DirSTR, strs []*protocol.DirSTR) bool {
	if len(strs) == 0 {
		return false
	}
	for _, s := range strs {
		if !Whole(s) {
			return false
		}
	}
	ok := vs.Or(Equal(verified, strs[0]), vs.And(Signed(pk, strs[0]), Extends(verified, strs[0])))
	for i := 1; i < len(strs); i++ {
		ok = vs.And(ok, Signed(pk, strs[i]), Extends(strs[i-1], strs[i]))
	}
	return ok
}

func Size(quick, thorough int) int {
	if vs.Thorough() {
		return thorough
	}
	return quick
}

func pick(name string, xs ...int) int { return xs[vs.Choose(name, len(xs))] }

// HostilePath is an authentication path as an adversary could send it.
func HostilePath(tag string, lookup []byte, levels, left int) *merkletree.AuthenticationPath {
	ap := &merkletree.AuthenticationPath{LookupIndex: append([]byte(nil), lookup...)}
	// left: how many fields may have an odd size, together
	odd := func(name string, q []int, t []int) int {
		if vs.Thorough() {
			q = t
		}
		if left == 0 {
			return q[0]
		}
		v := pick(name+tag, q...)
		if v != q[0] {
			left--
		}
		return v
	}
	// the number of siblings, and a level that should agree with it
	n := vs.Choose("siblings"+tag, levels+1)
	var level uint32
	switch k := odd("level", []int{0, 1, 4}, []int{0, 1, 2, 3, 4}); k {
	case 0:
		level = uint32(n)
	case 1:
		vs.Assume(n > 0)
		level = uint32(n - 1)
	case 2:
		level = uint32(n + 1)
	case 3:
		level = 256
	case 4:
		level = uint32(pick("hugelevel"+tag, 257, 1<<31, 1<<32-1))
	}
	for i := 0; i < n; i++ {
		var h [crypto.HashSizeByte]byte
		copy(h[:], vs.Bytes("sibling"+tag, crypto.HashSizeByte))
		ap.PrunedTree = append(ap.PrunedTree, h)
	}
	ap.TreeNonce = vs.Bytes("nonce"+tag, odd("noncelen", []int{32, 31, 33}, []int{32, 31, 33, 0, 30}))
	leaf := &merkletree.ProofNode{Level: level}
	ap.Leaf = leaf
	if vs.Choose("empty"+tag, 2) == 1 {
		leaf.IsEmpty = true
		leaf.Index = vs.Bytes("eindex"+tag, odd("eindexlen", []int{1, 0, 2}, []int{1, 0, 2, 32}))
		switch vs.Choose("evalue"+tag, 3) {
		case 1:
			leaf.Value = []byte{}
		case 2:
			leaf.Value = vs.Bytes("evalue"+tag, 1)
		}
		return ap
	}
	leaf.Index = vs.Bytes("index"+tag, odd("indexlen", []int{32, 31, 33}, []int{32, 31, 33, 0}))
	if l := odd("valuelen", []int{1, -1}, []int{1, -1, 0, 2}); l >= 0 {
		leaf.Value = vs.Bytes("value"+tag, l)
	}
	switch k := odd("commit", []int{32, -1, 31, 33}, []int{32, -1, 0, 31, 33}); k {
	case -1:
	default:
		leaf.Commitment = &crypto.Commit{Value: vs.Bytes("commit"+tag, k)}
		if l := odd("saltlen", []int{32, -1, 31}, []int{32, -1, 0, 31, 33}); l >= 0 {
			leaf.Commitment.Salt = vs.Bytes("salt"+tag, l)
		}
	}
	return ap
}
