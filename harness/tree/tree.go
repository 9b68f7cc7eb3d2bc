package tree

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/crypto"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/rand"
	"github.com/coniks-sys/coniks-go/merkletree"
)

const idxLen = 32

// fixedRand delivers prepared blocks, so that two trees can share nonces and salts.
type fixedRand struct {
	blocks [][]byte
	n      int
}

func (f *fixedRand) Read(b []byte) (int, error) {
	if f.n >= len(f.blocks) {
		panic("fixedRand exhausted")
	}
	copy(b, f.blocks[f.n])
	f.n++
	return len(b), nil
}

func use(blocks ...[]byte) { rand.Reader = &fixedRand{blocks: blocks} }

// index is an arbitrary index below the given prefix of concrete bits.
func index(name string, prefix int) []byte {
	b := vs.Bytes(name, idxLen)
	return withPrefix(b, prefix)
}

// withPrefix makes the first p bits concrete (alternating 1 and 0).
func withPrefix(b []byte, p int) []byte {
	for i := 0; i < p/8; i++ {
		b[i] = 0xaa
	}
	if r := p % 8; r > 0 {
		m := byte(0xff << (8 - uint(r)))
		b[p/8] = 0xaa&m | b[p/8]&^m
	}
	return b
}

func bit(b []byte, i int) bool { return b[i/8]&(0x80>>uint(i%8)) != 0 }

// apart: the two indices differ within bits [from, to).
func apart(a, b []byte, from, to int) bool {
	d := false
	for i := from; i < to && i < 8*idxLen; i++ {
		d = vs.Or(d, bit(a, i) != bit(b, i))
	}
	return d
}

type entry struct {
	idx, val []byte
	name     string
}

type world struct {
	m       *merkletree.MerkleTree
	entries []*entry
	prefix  int
	spread  int
}

func depths() []int {
	if vs.Thorough() {
		return []int{0, 1, 5, 7, 8, 9, 15, 16, 23, 31, 63, 64, 127, 128, 200, 247, 252}
	}
	return []int{0, 7}
}

func newWorld(spread int) *world {
	m, err := merkletree.NewMerkleTree()
	if err != nil {
		panic(err)
	}
	d := depths()
	return &world{m: m, prefix: d[vs.Choose("prefix", len(d))], spread: spread}
}

var names = []string{"alice", "bob", "carol", "dave"}

// add inserts a new name at an index that differs from all others within the
// spread, or updates an existing one.
func (w *world) add(tag string) {
	k := vs.Choose("which"+tag, len(w.entries)+1)
	val := vs.Bytes("val"+tag, 1+vs.Choose("vlen"+tag, 2))
	if k < len(w.entries) {
		e := w.entries[k]
		e.val = append([]byte(nil), val...)
		if w.m.Set(append([]byte(nil), e.idx...), e.name, val) != nil {
			panic("set")
		}
		vs.Cover("update")
		return
	}
	e := &entry{idx: index("idx"+tag, w.prefix), val: append([]byte(nil), val...), name: names[k]}
	for _, o := range w.entries {
		vs.Assume(apart(o.idx, e.idx, w.prefix, w.prefix+w.spread))
	}
	w.entries = append(w.entries, e)
	if w.m.Set(append([]byte(nil), e.idx...), e.name, val) != nil {
		panic("set")
	}
}

func (w *world) clobber(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

// checkLookup checks one lookup against what was stored.
func checkLookup(m *merkletree.MerkleTree, root []byte, entries []*entry, l []byte) {
	l0 := append([]byte(nil), l...)
	ap := m.Get(l)
	vs.Assert(ap != nil && ap.Leaf != nil, "a lookup yields a path")
	vs.Assert(bytes.Equal(l, l0), "a lookup leaves the index alone")
	vs.Assert(bytes.Equal(ap.LookupIndex, l0), "the path is for the looked-up index")
	var hit *entry
	for _, e := range entries {
		if vs.Decide(bytes.Equal(e.idx, l0)) {
			hit = e
		}
	}
	if hit != nil {
		vs.Assert(ap.ProofType() == merkletree.ProofOfInclusion, "a stored index gets a proof of inclusion")
		vs.Assert(bytes.Equal(ap.Leaf.Value, hit.val), "inclusion carries the latest value")
		vs.Assert(!ap.Leaf.IsEmpty, "inclusion is of a user leaf")
		vs.Assert(ap.Leaf.Commitment != nil && ap.Leaf.Commitment.Verify([]byte(hit.name), hit.val), "inclusion carries a valid opening")
		vs.Assert(ap.Verify([]byte(hit.name), hit.val, root) == nil, "the proof of inclusion verifies")
		vs.Cover("inclusion")
		return
	}
	vs.Assert(ap.ProofType() == merkletree.ProofOfAbsence, "an unknown index gets a proof of absence")
	vs.Assert(ap.Verify([]byte("x"), nil, root) == nil, "the proof of absence verifies")
	vs.Assert(ap.Leaf.Value == nil, "absence carries no value")
	if ap.Leaf.Commitment != nil {
		vs.Assert(ap.Leaf.Commitment.Salt == nil, "absence carries no opening")
		vs.Cover("absence by another leaf")
	} else {
		vs.Cover("absence by an empty branch")
	}
}

// Lookups: any insertions and updates, then a lookup of any index.
func Lookups() {
	n, spread := 2, 3
	if vs.Thorough() {
		n, spread = 3, 3
	}
	w := newWorld(spread)
	k := vs.Choose("ops", n+1)
	for i := 0; i < k; i++ {
		w.add(string(rune('0' + i)))
	}
	root := merkletree.VerifRoot(w.m)
	l := vs.Bytes("lookup", idxLen)
	if vs.Choose("near", 2) == 0 {
		l = withPrefix(l, w.prefix)
	} else {
		// leaves the common prefix at one of its last bits
		vs.Assume(w.prefix > 0)
		b := l[(w.prefix-1)/8]
		l = withPrefix(l, w.prefix)
		m := byte(0x80 >> uint((w.prefix-1)%8))
		l[(w.prefix-1)/8] = l[(w.prefix-1)/8]&^m | b&m
	}
	checkLookup(w.m, root, w.entries, l)
	vs.Assert(bytes.Equal(root, merkletree.VerifRoot(w.m)), "a lookup does not change the root")
}

// Three: three names at close indices.
func Three() {
	m, _ := merkletree.NewMerkleTree()
	w := &world{m: m, spread: 2}
	if vs.Thorough() {
		w.spread = 4
	}
	var es []*entry
	for i := 0; i < 3; i++ {
		e := &entry{idx: vs.Bytes("idx", idxLen), val: vs.Bytes("val", 1), name: names[i]}
		for _, o := range es {
			vs.Assume(apart(o.idx, e.idx, 0, w.spread))
		}
		es = append(es, e)
		if m.Set(append([]byte(nil), e.idx...), e.name, e.val) != nil {
			panic("set")
		}
		if i == 1 && vs.Choose("publish", 2) == 1 {
			merkletree.VerifRoot(m)
		}
	}
	root := merkletree.VerifRoot(m)
	checkLookup(m, root, es, vs.Bytes("lookup", idxLen))
}

// Deep: two names that share a long prefix.
func Deep() {
	ds := []int{8, 15, 31, 127, 253}
	if vs.Thorough() {
		ds = []int{8, 9, 15, 16, 17, 23, 24, 31, 32, 63, 64, 95, 126, 127, 128, 129, 191, 192, 223, 239, 240, 247, 248, 249, 252, 253, 254}
	}
	d := ds[vs.Choose("prefix", len(ds))]
	m, _ := merkletree.NewMerkleTree()
	var es []*entry
	for i := 0; i < 2; i++ {
		e := &entry{idx: index("idx", d), val: vs.Bytes("val", 1), name: names[i]}
		for _, o := range es {
			vs.Assume(apart(o.idx, e.idx, d, d+2))
		}
		es = append(es, e)
		if m.Set(append([]byte(nil), e.idx...), e.name, e.val) != nil {
			panic("set")
		}
	}
	root := merkletree.VerifRoot(m)
	checkLookup(m, root, es, index("lookup", d))
	vs.Cover("deep")
}

// ValueCopied: later changes of the caller's value do not reach the tree.
func ValueCopied() {
	m, _ := merkletree.NewMerkleTree()
	idx := index("idx", 0)
	val := vs.Bytes("val", 2)
	v0 := append([]byte(nil), val...)
	if m.Set(idx, "alice", val) != nil {
		panic("set")
	}
	vs.Assert(bytes.Equal(val, v0), "Set leaves the value alone")
	root := merkletree.VerifRoot(m)
	val[0] ^= 1
	ap := m.Get(append([]byte(nil), idx...))
	vs.Assert(bytes.Equal(ap.Leaf.Value, v0), "the stored value is a copy")
	vs.Assert(ap.Verify([]byte("alice"), v0, root) == nil, "the proof still verifies")
	vs.Cover("copied")
}

// ---- C03 ----

type binding struct {
	idx, val, rnd []byte
	name          string
}

func mkBindings(n, prefix, spread int, tag string) []*binding {
	var bs []*binding
	for i := 0; i < n; i++ {
		b := &binding{idx: index(tag+"idx", prefix), val: vs.Bytes(tag+"val", 1), rnd: vs.Bytes(tag+"salt", 32), name: names[i]}
		for _, o := range bs {
			vs.Assume(apart(o.idx, b.idx, prefix, prefix+spread))
		}
		bs = append(bs, b)
	}
	return bs
}

func (b *binding) set(m *merkletree.MerkleTree) {
	use(b.rnd)
	if m.Set(append([]byte(nil), b.idx...), b.name, append([]byte(nil), b.val...)) != nil {
		panic("set")
	}
}

func treeWith(nonce []byte) *merkletree.MerkleTree {
	use(nonce)
	m, err := merkletree.NewMerkleTree()
	if err != nil {
		panic(err)
	}
	return m
}

var perms = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// Canonical: the same bindings inserted in any order, with hashes computed in
// between or not, via an overwritten older value, or through a clone, give the
// same root.
func Canonical() {
	nonce := vs.Bytes("nonce", 32)
	n := 3
	prefix, spread := 0, 2
	if vs.Thorough() {
		spread = 3
		prefix = []int{0, 7, 250}[vs.Choose("prefix", 3)]
	}
	bs := mkBindings(n, prefix, spread, "")
	a := treeWith(nonce)
	for _, b := range bs {
		b.set(a)
	}
	ra := merkletree.VerifRoot(a)
	vs.Assert(bytes.Equal(ra, merkletree.VerifRoot(a)), "recomputing the hash leaves it unchanged")
	c := treeWith(nonce)
	p := perms[vs.Choose("order", len(perms))]
	mode := vs.Choose("mode", 3)
	for i, k := range p {
		if mode == 1 {
			merkletree.VerifRoot(c) // hashes cached in between
			if i == 2 {
				vs.Cover("hashed in between")
			}
		}
		if mode == 2 && i == 1 {
			old := &binding{idx: bs[k].idx, val: []byte{9}, rnd: make([]byte, 32), name: bs[k].name}
			old.set(c)
			merkletree.VerifRoot(c)
			c = c.Clone()
			vs.Cover("overwritten and cloned")
		}
		bs[k].set(c)
	}
	rc := merkletree.VerifRoot(c)
	vs.Assert(bytes.Equal(ra, rc), "the root does not depend on the history")
	// overwriting after hashing
	if mode == 1 {
		u := &binding{idx: bs[0].idx, val: vs.Bytes("newval", 1), rnd: vs.Bytes("newsalt", 32), name: bs[0].name}
		u.set(a)
		u.set(c)
		vs.Assert(bytes.Equal(merkletree.VerifRoot(a), merkletree.VerifRoot(c)), "the root does not depend on the history after an update")
	}
	vs.Observe("root", ra)
}

// Distinct: two trees with the same root hold the same bindings.
func Distinct() {
	n1 := vs.Bytes("nonceA", 32)
	n2 := n1
	if vs.Choose("nonces", 2) == 1 {
		n2 = vs.Bytes("nonceB", 32)
	}
	spread, max := 2, 2
	prefix := 0
	if vs.Thorough() {
		spread, max = 3, 2
		prefix = []int{0, 6, 15, 251}[vs.Choose("prefix", 4)]
	}
	as := mkBindings(vs.Choose("na", max+1), prefix, spread, "a")
	bs := mkBindings(vs.Choose("nb", max+1), prefix, spread, "b")
	a, b := treeWith(n1), treeWith(n2)
	for _, x := range as {
		x.set(a)
	}
	for _, x := range bs {
		x.set(b)
	}
	ra, rb := merkletree.VerifRoot(a), merkletree.VerifRoot(b)
	vs.Assert(len(ra) == crypto.HashSizeByte, "the root is a full hash")
	if !vs.Decide(bytes.Equal(ra, rb)) {
		vs.Cover("different roots")
		return
	}
	vs.Assert(bytes.Equal(n1, n2), "trees with different nonces have different roots")
	vs.Assert(len(as) == len(bs), "trees with different sizes have different roots")
	for _, x := range as {
		found := false
		for _, y := range bs {
			found = vs.Or(found, vs.And(bytes.Equal(x.idx, y.idx), bytes.Equal(x.rnd, y.rnd),
				bytes.Equal([]byte(x.name+string(x.val)), []byte(y.name+string(y.val)))))
		}
		vs.Assert(found, "trees with the same root hold the same bindings")
	}
	vs.Cover("same roots")
}

// Changed: overwriting one value changes the root.
func Changed() {
	nonce := vs.Bytes("nonce", 32)
	d := depths()
	prefix := d[vs.Choose("prefix", len(d))]
	bs := mkBindings(2, prefix, 3, "")
	m := treeWith(nonce)
	for _, b := range bs {
		b.set(m)
	}
	r1 := append([]byte(nil), merkletree.VerifRoot(m)...)
	k := vs.Choose("which", 2)
	u := &binding{idx: bs[k].idx, val: vs.Bytes("newval", 1), rnd: vs.Bytes("newsalt", 32), name: bs[k].name}
	u.set(m)
	r2 := merkletree.VerifRoot(m)
	same := vs.And(bytes.Equal(u.val, bs[k].val), bytes.Equal(u.rnd, bs[k].rnd))
	vs.Assert(vs.Iff(bytes.Equal(r1, r2), same), "the root changes exactly with the bindings")
	vs.Cover("changed")
}
