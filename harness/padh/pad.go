package padh

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/merkletree"
)

var names = []string{"alice", "bob", "carol", "dave"}

// data is associated data with one distinguishing byte.
type data struct{ b []byte }

func (d *data) Serialize() []byte { return append([]byte(nil), d.b...) }

func bit(b []byte, i int) bool { return b[i/8]&(0x80>>uint(i%8)) != 0 }

func apart(a, b []byte, n int) bool {
	d := false
	for i := 0; i < n; i++ {
		d = vs.Or(d, bit(a, i) != bit(b, i))
	}
	return d
}

type world struct {
	pad    *merkletree.PAD
	pk     sign.PublicKey
	vpk    vrf.PublicKey
	ad     merkletree.AssocData // in force for the next published epoch
	strs   []*merkletree.SignedTreeRoot
	bound  map[string][]byte   // working tree
	boundE []map[string][]byte // per published epoch
	cap    uint64
	spread int
	deep   int // bits every name's index starts with (alternating 1 and 0)
	used   int // names whose indices are known to be apart
}

func newWorld(capacity uint64, spread int) *world {
	sk, err := sign.GenerateKey(nil)
	if err != nil {
		panic(err)
	}
	vk, err := vrf.GenerateKey(nil)
	if err != nil {
		panic(err)
	}
	w := &world{cap: capacity, spread: spread, bound: map[string][]byte{}}
	w.pk, _ = sk.Public()
	w.vpk, _ = vk.Public()
	w.ad = &data{vs.Bytes("ad", 1)}
	w.pad, err = merkletree.NewPAD(w.ad, sk, vk, capacity)
	if err != nil {
		panic(err)
	}
	return w
}

// use declares that the first n names have indices that differ early.
func (w *world) use(n int) {
	for i := w.used; i < n; i++ {
		x := w.pad.Index(names[i])
		for b := 0; b < w.deep; b++ {
			vs.Assume(bit(x, b) == (b%2 == 0))
		}
		for j := 0; j < i; j++ {
			vs.Assume(apart(x, w.pad.Index(names[j]), w.deep+w.spread))
		}
	}
	w.used = n
}

func (w *world) published() {
	w.strs = append(w.strs, w.pad.LatestSTR())
	c := map[string][]byte{}
	for k, v := range w.bound {
		c[k] = v
	}
	w.boundE = append(w.boundE, c)
}

func (w *world) set(name, tag string) {
	v := vs.Bytes("val"+tag, 1)
	w.bound[name] = append([]byte(nil), v...)
	if w.pad.Set(name, v) != nil {
		panic("set")
	}
}

// checkLatest checks the newest tree root against its predecessor.
func (w *world) checkLatest(prev *merkletree.SignedTreeRoot) {
	s := w.pad.LatestSTR()
	vs.Assert(s != nil, "there is a latest tree root")
	if prev == nil {
		vs.Assert(s.Epoch == 0 && s.PreviousEpoch == 0, "epochs start at 0")
		vs.Assert(len(s.PreviousSTRHash) == crypto.HashSizeByte, "the first tree root has a full-size previous hash")
		vs.Cover("first epoch")
	} else {
		vs.Assert(s.Epoch == prev.Epoch+1, "an update advances the epoch by one")
		vs.Assert(s.PreviousEpoch == prev.Epoch, "the previous epoch is linked")
		vs.Assert(bytes.Equal(s.PreviousSTRHash, crypto.Digest(prev.Signature)), "the previous tree root's signature is hashed in")
		vs.Assert(s.VerifyHashChain(prev), "the chain verifies")
		vs.Cover("next epoch")
	}
	vs.Assert(bytes.Equal(s.TreeHash, merkletree.VerifWorkingRoot(w.pad)), "the root is that of the working tree")
	vs.Assert(len(s.TreeHash) == crypto.HashSizeByte, "the root is full-size")
	vs.Assert(s.Ad == w.ad, "the associated data in force is published")
	vs.Assert(w.pk.Verify(s.Serialize(), s.Signature), "the signature verifies")
	vs.Assert(w.pad.GetSTR(s.Epoch) == s, "the published epoch can be fetched")
}

// Chain: C05.
func Chain() {
	ops := 3
	if vs.Thorough() {
		ops = 5
	}
	w := newWorld(uint64(2+vs.Choose("cap", 2)*6), 2)
	w.deep = depth("deep")
	w.use(2)
	w.checkLatest(nil)
	w.published()
	n := vs.Choose("ops", ops) + 1
	for i := 0; i < n; i++ {
		prev := w.pad.LatestSTR()
		tag := string(rune('0' + i))
		switch vs.Choose("op"+tag, 4) {
		case 0:
			w.set(names[0], tag)
		case 1:
			w.set(names[1], tag)
		case 2:
			w.pad.Update(nil)
			w.checkLatest(prev)
			w.published()
			continue
		case 3:
			ad := &data{vs.Bytes("ad"+tag, 1)}
			w.pad.Update(ad)
			w.checkLatest(prev) // still the old data
			w.ad = ad
			w.published()
			vs.Cover("new associated data")
			continue
		}
		vs.Assert(w.pad.LatestSTR() == prev, "an insertion publishes nothing")
	}
	// every published tree root still links to its predecessor
	for i := 1; i < len(w.strs); i++ {
		vs.Assert(w.strs[i].Epoch == uint64(i) && w.strs[i].VerifyHashChain(w.strs[i-1]), "the published chain is unbroken")
		vs.Assert(w.pk.Verify(w.strs[i].Serialize(), w.strs[i].Signature), "published signatures stay valid")
	}
	// a published epoch contains exactly what was set before it
	for e := range w.strs {
		if w.pad.GetSTR(uint64(e)) != w.strs[e] {
			vs.Cover("evicted")
			continue
		}
		for _, nm := range names[:2] {
			ap, err := w.pad.LookupInEpoch(nm, uint64(e))
			vs.Assert(err == nil && ap != nil, "retained epochs are answered")
			v, in := w.boundE[e][nm]
			if in {
				vs.Assert(ap.ProofType() == merkletree.ProofOfInclusion && bytes.Equal(ap.Leaf.Value, v), "an epoch holds what was set before it")
			} else {
				vs.Assert(ap.ProofType() == merkletree.ProofOfAbsence, "an epoch does not hold what was set after it")
			}
			vs.Assert(ap.Verify([]byte(nm), v, w.strs[e].TreeHash) == nil, "answers verify against the epoch's root")
			vs.Assert(w.vpk.Verify([]byte(nm), ap.LookupIndex, ap.VrfProof), "the index is proven")
		}
	}
}

type epochAnswers struct {
	str  *merkletree.SignedTreeRoot
	flat *vs.Mark
	ans  []*vs.Mark
}

// flat are the public fields of a tree root.
type flat struct {
	TreeHash, PreviousSTRHash, Signature, Ad []byte
	Epoch, PreviousEpoch                     uint64
}

func flatten(s *merkletree.SignedTreeRoot) *flat {
	return &flat{s.TreeHash, s.PreviousSTRHash, s.Signature, s.Ad.Serialize(), s.Epoch, s.PreviousEpoch}
}

type flatAP struct {
	TreeNonce, LookupIndex, VrfProof, Index, Value, Salt, Commit []byte
	Pruned                                                       [][crypto.HashSizeByte]byte
	Level                                                        uint32
	IsEmpty, ValueNil, HasCommit                                 bool
}

func flattenAP(ap *merkletree.AuthenticationPath) *flatAP {
	f := &flatAP{TreeNonce: ap.TreeNonce, LookupIndex: ap.LookupIndex, VrfProof: ap.VrfProof, Index: ap.Leaf.Index,
		Value: ap.Leaf.Value, Pruned: ap.PrunedTree, Level: ap.Leaf.Level, IsEmpty: ap.Leaf.IsEmpty, ValueNil: ap.Leaf.Value == nil}
	if ap.Leaf.Commitment != nil {
		f.HasCommit = true
		f.Salt, f.Commit = ap.Leaf.Commitment.Salt, ap.Leaf.Commitment.Value
	}
	return f
}

func (w *world) answers(e uint64) []*vs.Mark {
	var out []*vs.Mark
	for _, nm := range names[:w.used] {
		ap, err := w.pad.LookupInEpoch(nm, e)
		if err != nil {
			panic(err)
		}
		out = append(out, vs.Snapshot(flattenAP(ap)))
	}
	return out
}

// depth chooses how many leading bits all indices share.
func depth(name string) int {
	d := []int{0, 4}
	if vs.Thorough() {
		d = []int{0, 9}
	}
	return d[vs.Choose(name, len(d))]
}

// Frozen: C04. Whatever happens after an epoch is published, its tree root and
// its answers stay the same.
func Frozen() {
	ops, known := 2, 3
	w := newWorld(10, 2)
	w.deep = depth("deep")
	if vs.Thorough() {
		ops = 3
		if w.deep == 0 {
			ops = 4
		}
	}
	w.use(known)
	// some names before the epoch
	pre := vs.Choose("before", 3)
	for i := 0; i < pre; i++ {
		w.set(names[i], "pre"+string(rune('0'+i)))
	}
	if pre > 0 || vs.Choose("zero", 2) == 1 {
		w.pad.Update(nil)
	}
	var eps []*epochAnswers
	record := func() {
		s := w.pad.LatestSTR()
		eps = append(eps, &epochAnswers{str: s, flat: vs.Snapshot(flatten(s)), ans: w.answers(s.Epoch)})
	}
	record()
	n := 1 + vs.Choose("ops", ops)
	for i := 0; i < n; i++ {
		tag := string(rune('0' + i))
		switch k := vs.Choose("op"+tag, known+2); {
		case k < known:
			w.set(names[k], tag) // a new name or a new value
			vs.Cover("set")
		case k == known:
			w.pad.Update(nil)
			record()
			vs.Cover("update")
		default:
			w.pad.Update(&data{vs.Bytes("ad"+tag, 1)})
			record()
		}
		if _, err := w.pad.Lookup(names[0]); err != nil {
			panic(err)
		}
	}
	for _, ep := range eps {
		vs.Assert(w.pad.GetSTR(ep.str.Epoch) == ep.str, "a published epoch keeps its tree root")
		vs.Assert(vs.Same(ep.flat, flatten(ep.str)), "a published tree root does not change")
		for i, nm := range names[:w.used] {
			ap, err := w.pad.LookupInEpoch(nm, ep.str.Epoch)
			vs.Assert(err == nil, "a published epoch still answers")
			vs.Assert(vs.Same(ep.ans[i], flattenAP(ap)), "an answer for a published epoch does not change")
			vs.Assert(ap.Verify([]byte(nm), ap.Leaf.Value, ep.str.TreeHash) == nil, "an answer for a published epoch still verifies")
		}
	}
	vs.Cover("frozen")
}

// Clones: C04. A clone and its original evolve independently.
func Clones() {
	m, err := merkletree.NewMerkleTree()
	if err != nil {
		panic(err)
	}
	deep := depth("deep")
	idx := make([][]byte, 3)
	for i := range idx {
		idx[i] = vs.Bytes("idx", 32)
		for b := 0; b < deep; b++ {
			m := byte(0x80 >> uint(b%8))
			idx[i][b/8] &^= m
			if b%2 == 0 {
				idx[i][b/8] |= m
			}
		}
		for j := 0; j < i; j++ {
			vs.Assume(apart(idx[i], idx[j], deep+2))
		}
	}
	set := func(t *merkletree.MerkleTree, i int, tag string) {
		if t.Set(append([]byte(nil), idx[i]...), names[i], vs.Bytes("val"+tag, 1)) != nil {
			panic("set")
		}
	}
	pre := vs.Choose("before", 3)
	for i := 0; i < pre; i++ {
		set(m, i, "pre")
	}
	rootM := merkletree.VerifRoot(m)
	c := m.Clone()
	marks := func(t *merkletree.MerkleTree) []*vs.Mark {
		var out []*vs.Mark
		for i := range idx {
			out = append(out, vs.Snapshot(flattenAP(t.Get(append([]byte(nil), idx[i]...)))))
		}
		return out
	}
	before := marks(m)
	for i := range before {
		vs.Assert(vs.Same(before[i], flattenAP(c.Get(append([]byte(nil), idx[i]...)))), "a clone answers like its original")
	}
	changed, other := m, c
	if vs.Choose("change", 2) == 1 {
		changed, other = c, m
		vs.Cover("clone changed")
	} else {
		vs.Cover("original changed")
	}
	steps := 2
	if vs.Thorough() {
		steps = 3
	}
	for k := vs.Choose("steps", steps); k >= 0; k-- {
		set(changed, vs.Choose("which", 3), "post")
	}
	merkletree.VerifRoot(changed)
	for i := range idx {
		vs.Assert(vs.Same(before[i], flattenAP(other.Get(append([]byte(nil), idx[i]...)))), "a change stays on its side of the clone")
	}
	vs.Assert(bytes.Equal(rootM, merkletree.VerifRoot(other)), "the untouched side keeps its root")
}

// Cache: C08.
func Cache() {
	maxCap, maxUpd := 4, 6
	if vs.Thorough() {
		maxCap, maxUpd = 8, 20
	}
	capacity := 2 + vs.Choose("cap", maxCap-1)
	w := newWorld(uint64(capacity), 2)
	w.use(1)
	w.set(names[0], "x")
	strs := []*merkletree.SignedTreeRoot{w.pad.LatestSTR()}
	first := 0 // the oldest retained epoch
	n := vs.Choose("updates", maxUpd+1)
	for i := 0; i < n; i++ {
		if len(strs)-first == capacity { // full
			first += capacity / 2
			vs.Cover("evict")
		}
		w.pad.Update(nil)
		strs = append(strs, w.pad.LatestSTR())
		vs.Assert(strs[len(strs)-1].Epoch == uint64(i+1), "epochs count up")
		vs.Assert(len(strs)-first <= capacity, "model within capacity")
	}
	latest := uint64(len(strs) - 1)
	e := vs.U64("epoch")
	s := w.pad.GetSTR(e)
	ap, err := w.pad.LookupInEpoch(names[0], e)
	switch {
	case e >= latest:
		vs.Assert(s == strs[latest], "beyond the latest epoch the latest is returned")
		vs.Assert(err == nil && ap.Verify([]byte(names[0]), ap.Leaf.Value, strs[latest].TreeHash) == nil, "and answers for it")
		vs.Cover("latest")
	case e >= uint64(first):
		vs.Assert(s != nil && s.Epoch == e, "a retained epoch is returned")
		k := vs.ConcInt(int(e))
		vs.Assert(s == strs[k], "the published tree root is returned")
		vs.Assert(err == nil && ap.Verify([]byte(names[0]), ap.Leaf.Value, strs[k].TreeHash) == nil, "a retained epoch is answered from its own tree")
		want := merkletree.ProofOfInclusion
		if k == 0 {
			want = merkletree.ProofOfAbsence
		}
		vs.Assert(ap.ProofType() == want, "a retained epoch answers as of then")
		vs.Cover("retained")
	default:
		vs.Assert(s == nil, "an evicted epoch is not found")
		vs.Assert(err == merkletree.ErrSTRNotFound && ap == nil, "a lookup in an evicted epoch reports not found")
		vs.Cover("evicted")
	}
}
