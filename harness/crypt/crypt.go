package crypt

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/rand"
	"github.com/coniks-sys/coniks-go/merkletree"
)

func lens(name string, quick, thorough int) int {
	if vs.Thorough() {
		return vs.Choose(name, thorough+1)
	}
	return vs.Choose(name, quick+1)
}

// long is a length from 0 to n or one of some larger lengths around the block
// sizes of hash functions.
func long(name string, n int) int {
	l := []int{65, 129, 200}
	if vs.Thorough() {
		l = []int{16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 136, 167, 168, 169, 200, 256, 257, 337, 1025}
	}
	k := vs.Choose(name, n+1+len(l))
	if k > n {
		return l[k-n-1]
	}
	return k
}

// CommitHonest: a fresh commitment opens to what it was made for and to
// nothing else.
func CommitHonest() {
	name := vs.Bytes("name", long("namelen", 2))
	val := vs.Bytes("value", long("vallen", 2))
	n0, v0 := append([]byte(nil), name...), append([]byte(nil), val...)
	c, err := crypto.NewCommit(name, val)
	vs.Assert(err == nil && c != nil, "commitment made")
	vs.Assert(bytes.Equal(name, n0), "NewCommit leaves the name alone")
	vs.Assert(bytes.Equal(val, v0), "NewCommit leaves the value alone")
	vs.Assert(len(c.Salt) == 32 && len(c.Value) == 32, "salt and value are full-size")
	vs.Assert(c.Verify(name, val), "a fresh commitment verifies for its data")
	vs.Assert(bytes.Equal(name, n0), "Verify leaves the name alone")
	vs.Assert(bytes.Equal(val, v0), "Verify leaves the value alone")
	vs.Assert(c.Verify(name, val), "verification can be repeated")
	// another name of the same length or another value of any length
	name2 := vs.Bytes("name2", len(name))
	val2 := vs.Bytes("value2", long("vallen2", 2))
	ok := c.Verify(name2, val2)
	same := vs.And(bytes.Equal(name, name2), bytes.Equal(val, val2))
	vs.Assert(vs.Iff(ok, same), "a commitment opens only to its own name and value")
	// another salt or commitment value
	salt2 := vs.Bytes("salt2", 32)
	cv2 := vs.Bytes("cvalue2", 32)
	d := &crypto.Commit{Salt: salt2, Value: cv2}
	okS := (&crypto.Commit{Salt: salt2, Value: c.Value}).Verify(name, val)
	vs.Assert(vs.Iff(okS, bytes.Equal(salt2, c.Salt)), "only the original salt opens the commitment")
	okV := (&crypto.Commit{Salt: c.Salt, Value: cv2}).Verify(name, val)
	vs.Assert(vs.Iff(okV, bytes.Equal(cv2, c.Value)), "only the original commitment value is opened")
	_ = d.Verify(name, val)
	vs.Observe("ok", ok, okS, okV)
	vs.Cover("honest")
	if ok {
		vs.Cover("opened again")
	}
}

// CommitUnique: no commitment value has two openings for the same name.
func CommitUnique() {
	pick := func(tag string) []byte {
		l := []int{0, 1, 31, 32, 33, 34}
		if vs.Thorough() {
			l = []int{0, 1, 2, 16, 30, 31, 32, 33, 34, 35, 36, 37, 64}
		}
		return vs.Bytes("salt"+tag, l[vs.Choose("saltlen"+tag, len(l))])
	}
	name := vs.Bytes("name", lens("namelen", 2, 4))
	cv := vs.Bytes("cvalue", 32)
	s1, s2 := pick("1"), pick("2")
	v1 := vs.Bytes("value1", long("vallen1", 3))
	v2 := vs.Bytes("value2", long("vallen2", 3))
	ok1 := (&crypto.Commit{Salt: s1, Value: cv}).Verify(name, v1)
	vs.Assume(ok1)
	ok2 := (&crypto.Commit{Salt: s2, Value: cv}).Verify(name, v2)
	vs.Assume(ok2)
	vs.Assert(bytes.Equal(v1, v2), "no commitment opens to two values of a name")
	vs.Assert(bytes.Equal(s1, s2), "no commitment opens under two salts")
	vs.Cover("two openings agree")
}

// CommitValueLength: a commitment value of another size never verifies.
func CommitValueLength() {
	l := []int{0, 1, 31, 33, 64}
	cv := vs.Bytes("cvalue", l[vs.Choose("cvlen", len(l))])
	salt := vs.Bytes("salt", 32)
	name := vs.Bytes("name", 2)
	v := vs.Bytes("value", 2)
	vs.Assert(!(&crypto.Commit{Salt: salt, Value: cv}).Verify(name, v), "a truncated or extended commitment is rejected")
	vs.Assert(!(&crypto.Commit{Salt: salt}).Verify(name, v), "a missing commitment is rejected")
	vs.Cover("bad length")
}

// drawn is the randomness delivered since the k-th block.
func drawn(k int) []byte {
	var out []byte
	for _, d := range rand.Drawn[k:] {
		out = append(out, d...)
	}
	return out
}

func hashedFresh(v []byte, k int, what string) {
	d := drawn(k)
	vs.Assert(len(rand.Drawn) > k, what+" draws fresh randomness")
	vs.Assert(len(d) >= crypto.HashSizeByte, what+" draws full-length randomness")
	vs.Assert(len(v) == crypto.HashSizeByte, what+" is full-length")
	vs.Assert(bytes.Equal(v, crypto.Digest(d)), what+" is the hash of the fresh randomness")
	vs.Assert(!bytes.Equal(v, d[:crypto.HashSizeByte]) || vs.Decide(bytes.Equal(crypto.Digest(d), d[:crypto.HashSizeByte])), what+" is not the raw randomness")
}

// RandHashed: everything random on the wire is hashed fresh randomness.
func RandHashed() {
	k := len(rand.Drawn)
	r, err := crypto.MakeRand()
	vs.Assert(err == nil, "MakeRand works")
	hashedFresh(r, k, "MakeRand")
	k = len(rand.Drawn)
	r2, err := crypto.MakeRand()
	vs.Assert(err == nil, "MakeRand works again")
	hashedFresh(r2, k, "the second MakeRand")
	k = len(rand.Drawn)
	c, err := crypto.NewCommit([]byte("n"), []byte("v"))
	vs.Assert(err == nil, "NewCommit works")
	hashedFresh(c.Salt, k, "the commitment salt")
	vs.Observe("r", r, r2, c.Salt)
	vs.Cover("rand")
}

// TreeRand: nonce of each new tree, salt of each binding.
func TreeRand() {
	k := len(rand.Drawn)
	m, err := merkletree.NewMerkleTree()
	vs.Assert(err == nil, "tree made")
	idx := []byte{0x80, 1}
	ap := m.Get(idx)
	hashedFresh(ap.TreeNonce, k, "the tree nonce")
	for i := 0; i < 2; i++ {
		k = len(rand.Drawn)
		if m.Set(idx, "name", []byte("value")) != nil {
			vs.Fail("Set works")
		}
		ap = m.Get(idx)
		hashedFresh(ap.Leaf.Commitment.Salt, k, "the salt of a binding")
	}
	k = len(rand.Drawn)
	m2, err := merkletree.NewMerkleTree()
	vs.Assert(err == nil, "second tree made")
	hashedFresh(m2.Get(idx).TreeNonce, k, "the second tree's nonce")
	vs.Cover("tree")
}

type ad struct{ b []byte }

func (a ad) Serialize() []byte { return a.b }

var vrfKey = make([]byte, 64)

func newPAD() (p *merkletree.PAD, err error, panicked bool) {
	sk, e := sign.GenerateKey(bytes.NewReader(make([]byte, 32)))
	if e != nil {
		panic(e)
	}
	defer func() {
		if r := recover(); r != nil {
			p, panicked = nil, true
		}
	}()
	p, err = merkletree.NewPAD(ad{[]byte{1}}, sk, vrfKey, 2)
	return
}

// PadRand: nonce and first previous-STR hash of a directory.
func PadRand() {
	k := len(rand.Drawn)
	p, err, panicked := newPAD()
	vs.Assert(err == nil && !panicked, "PAD made")
	d := rand.Drawn[k:]
	vs.Assert(len(d) == 2 && len(d[0]) >= 32 && len(d[1]) >= 32, "nonce and first previous hash are drawn separately")
	ap, err := p.Lookup("x")
	vs.Assert(err == nil, "lookup works")
	vs.Assert(bytes.Equal(ap.TreeNonce, crypto.Digest(d[0])), "the nonce is hashed fresh randomness")
	vs.Assert(bytes.Equal(p.LatestSTR().PreviousSTRHash, crypto.Digest(d[1])), "the first previous-STR hash is hashed fresh randomness")
	vs.Cover("pad")
}

// failNext makes the source fail within the next n blocks of randomness:
// at once, or after it delivered part of a block.
func failNext(n int) {
	switch vs.Choose("delivery", 3) {
	case 0:
		rand.FailAt = rand.Reads + vs.Choose("at", n)
	case 1:
		rand.Chunk = 16
		rand.FailAt = rand.Reads + vs.Choose("at", 2*n)
	case 2:
		rand.Chunk = 5
		rand.FailAt = rand.Reads + 7*vs.Choose("block", n) + vs.Choose("at", 7)
	}
}

// works ends the failure.
func works() { rand.FailAt, rand.Chunk = -1, 0 }

// RandFails: a failing source is an error everywhere.
func RandFails() {
	failNext(1)
	switch vs.Choose("op", 4) {
	case 0:
		r, err := crypto.MakeRand()
		vs.Assert(err != nil, "MakeRand reports the failure")
		vs.Assert(r == nil, "MakeRand returns nothing on failure")
		vs.Cover("MakeRand fails")
	case 1:
		c, err := crypto.NewCommit([]byte("n"), []byte("v"))
		vs.Assert(err != nil, "NewCommit reports the failure")
		vs.Assert(c == nil, "NewCommit makes no commitment on failure")
		vs.Cover("NewCommit fails")
	case 2:
		m, err := merkletree.NewMerkleTree()
		vs.Assert(err != nil, "NewMerkleTree reports the failure")
		vs.Assert(m == nil, "no tree is made on failure")
		vs.Cover("NewMerkleTree fails")
	case 3:
		_, err := sign.GenerateKey(nil)
		vs.Assert(err != nil, "key generation reports the failure")
		vs.Cover("GenerateKey fails")
	}
}

// SetFails: a failed insertion or update leaves the tree as it was.
func SetFails() {
	m, err := merkletree.NewMerkleTree()
	vs.Assert(err == nil, "tree made")
	idx := vs.Bytes("idx", 1)
	if vs.Choose("before", 2) == 1 {
		vs.Assert(m.Set(idx, "name", []byte("value")) == nil, "Set works")
		vs.Cover("update")
	}
	s := vs.Snapshot(m)
	failNext(1)
	idx2 := vs.Bytes("idx2", 1)
	err = m.Set(idx2, "name2", []byte("value2"))
	vs.Assert(err != nil, "Set reports the failure")
	vs.Assert(vs.Same(s, m), "a failed Set leaves the tree unchanged")
	vs.Cover("Set fails")
}

// PadFails: no PAD without randomness; a failed Set changes nothing.
func PadFails() {
	switch vs.Choose("op", 2) {
	case 0:
		failNext(2)
		p, err, panicked := newPAD()
		vs.Assert(p == nil && (err != nil || panicked), "no PAD is made without randomness")
		vs.Cover("NewPAD fails")
	case 1:
		p, err, panicked := newPAD()
		vs.Assert(err == nil && !panicked, "PAD made")
		s := vs.Snapshot(p)
		failNext(1)
		vs.Assert(p.Set("name", []byte("value")) != nil, "PAD.Set reports the failure")
		vs.Assert(vs.Same(s, p), "a failed PAD.Set changes nothing")
		works()
		vs.Assert(p.Set("name", []byte("value")) == nil, "PAD.Set works again")
		vs.Cover("PAD.Set fails")
	}
}
