package tree

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/crypto"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/merkletree"
)

func pick(name string, xs ...int) int { return xs[vs.Choose(name, len(xs))] }

// hostilePath is an authentication path as an adversary could send it.
func hostilePath(tag string, lookup []byte, levels, left int) *merkletree.AuthenticationPath {
	ap := &merkletree.AuthenticationPath{LookupIndex: append([]byte(nil), lookup...)}
	// left: how many fields may have an odd size, together
	odd := func(name string, q []int, t []int) int {
		if vs.Thorough() {
			q = t
		}
		if left == 0 {
			return q[0]
		}
		v := pick(name+tag, q...)
		if v != q[0] {
			left--
		}
		return v
	}
	// the number of siblings, and a level that should agree with it
	n := vs.Choose("siblings"+tag, levels+1)
	var level uint32
	switch k := odd("level", []int{0, 1, 4}, []int{0, 1, 2, 3, 4}); k {
	case 0:
		level = uint32(n)
	case 1:
		vs.Assume(n > 0)
		level = uint32(n - 1)
	case 2:
		level = uint32(n + 1)
	case 3:
		level = 256
	case 4:
		level = uint32(pick("hugelevel"+tag, 257, 1<<31, 1<<32-1))
	}
	for i := 0; i < n; i++ {
		var h [crypto.HashSizeByte]byte
		copy(h[:], vs.Bytes("sibling"+tag, crypto.HashSizeByte))
		ap.PrunedTree = append(ap.PrunedTree, h)
	}
	ap.TreeNonce = vs.Bytes("nonce"+tag, odd("noncelen", []int{32, 31, 33}, []int{32, 31, 33, 0, 30}))
	leaf := &merkletree.ProofNode{Level: level}
	ap.Leaf = leaf
	if vs.Choose("empty"+tag, 2) == 1 {
		leaf.IsEmpty = true
		leaf.Index = vs.Bytes("eindex"+tag, odd("eindexlen", []int{1, 0, 2}, []int{1, 0, 2, 32}))
		switch vs.Choose("evalue"+tag, 3) {
		case 1:
			leaf.Value = []byte{}
		case 2:
			leaf.Value = vs.Bytes("evalue"+tag, 1)
		}
		return ap
	}
	leaf.Index = vs.Bytes("index"+tag, odd("indexlen", []int{32, 31, 33}, []int{32, 31, 33, 0}))
	if l := odd("valuelen", []int{1, -1}, []int{1, -1, 0, 2}); l >= 0 {
		leaf.Value = vs.Bytes("value"+tag, l)
	}
	switch k := odd("commit", []int{32, -1, 31, 33}, []int{32, -1, 0, 31, 33}); k {
	case -1:
	default:
		leaf.Commitment = &crypto.Commit{Value: vs.Bytes("commit"+tag, k)}
		if l := odd("saltlen", []int{32, -1, 31}, []int{32, -1, 0, 31, 33}); l >= 0 {
			leaf.Commitment.Salt = vs.Bytes("salt"+tag, l)
		}
	}
	return ap
}

func sameProof(a, b *merkletree.AuthenticationPath, va, vb []byte) {
	if a.ProofType() != b.ProofType() {
		vs.Fail("one root, two kinds of proof for one index")
	}
	vs.Assert(len(a.PrunedTree) == len(b.PrunedTree), "one root, one path length")
	for i := range a.PrunedTree {
		vs.Assert(bytes.Equal(a.PrunedTree[i][:], b.PrunedTree[i][:]), "one root, one set of siblings")
	}
	vs.Assert(a.Leaf.Level == b.Leaf.Level && a.Leaf.IsEmpty == b.Leaf.IsEmpty, "one root, one leaf kind")
	vs.Assert(bytes.Equal(a.Leaf.Index, b.Leaf.Index), "one root, one leaf index")
	vs.Assert(bytes.Equal(a.TreeNonce, b.TreeNonce), "one root, one nonce")
	if a.ProofType() == merkletree.ProofOfInclusion {
		vs.Assert(bytes.Equal(va, vb), "one root, one value")
		vs.Assert(bytes.Equal(a.Leaf.Value, va) && bytes.Equal(b.Leaf.Value, vb), "the proof carries the value")
		vs.Assert(bytes.Equal(a.Leaf.Commitment.Value, b.Leaf.Commitment.Value), "one root, one commitment")
		vs.Cover("both inclusion")
	} else {
		vs.Assert(a.Leaf.Value == nil && b.Leaf.Value == nil, "absence carries no value")
		if !a.Leaf.IsEmpty {
			vs.Assert(bytes.Equal(a.Leaf.Commitment.Value, b.Leaf.Commitment.Value), "one root, one commitment")
		}
		vs.Cover("both absence")
	}
}

// Agree: two hostile paths that verify for one root, index and name agree.
func Agree() {
	levels := 1
	if vs.Thorough() {
		levels = 2
	}
	root := vs.Bytes("root", 32)
	lookup := vs.Bytes("lookup", idxLen)
	key := vs.Bytes("key", 1)
	val := func(tag string, ap *merkletree.AuthenticationPath) []byte {
		if vs.Thorough() && vs.Choose("expect"+tag, 2) == 0 {
			return append([]byte(nil), ap.Leaf.Value...)
		}
		return vs.Bytes("expected"+tag, 1)
	}
	a := hostilePath("A", lookup, levels, 2)
	va := val("A", a)
	vs.Assume(a.Verify(key, va, root) == nil)
	b := hostilePath("B", lookup, levels, 2)
	vb := val("B", b)
	vs.Assume(b.Verify(key, vb, root) == nil)
	sameProof(a, b, va, vb)
}

// AgreeHonest: a hostile path that verifies for the root of an honest tree
// says what the tree says.
func AgreeHonest() {
	w := newWorld(2)
	vs.Assume(w.prefix == 0)
	n := vs.Choose("names", 3)
	for i := 0; i < n; i++ {
		e := &entry{idx: vs.Bytes("idx", idxLen), val: vs.Bytes("val", 1), name: names[i]}
		for _, o := range w.entries {
			vs.Assume(apart(o.idx, e.idx, 0, 2))
		}
		w.entries = append(w.entries, e)
		if w.m.Set(append([]byte(nil), e.idx...), e.name, append([]byte(nil), e.val...)) != nil {
			panic("set")
		}
	}
	root := merkletree.VerifRoot(w.m)
	lookup := vs.Bytes("lookup", idxLen)
	var hit *entry
	for _, e := range w.entries {
		if vs.Decide(bytes.Equal(e.idx, lookup)) {
			hit = e
		}
	}
	name := names[vs.Choose("name", 2)]
	odd := 1
	if vs.Thorough() {
		odd = 2
	}
	ap := hostilePath("A", lookup, 2, odd)
	v := vs.Bytes("expected", 1)
	vs.Assume(ap.Verify([]byte(name), v, root) == nil)
	if hit == nil {
		vs.Assert(ap.ProofType() == merkletree.ProofOfAbsence, "an unknown index cannot be proven present")
		vs.Cover("absent")
		return
	}
	vs.Assert(ap.ProofType() == merkletree.ProofOfInclusion, "a stored index cannot be proven absent")
	vs.Assert(bytes.Equal(v, hit.val) && bytes.Equal(ap.Leaf.Value, hit.val), "inclusion of the stored value only")
	if len(name) == len(hit.name) {
		vs.Assert(name == hit.name, "inclusion for the stored name only")
	}
	vs.Cover("present")
}
