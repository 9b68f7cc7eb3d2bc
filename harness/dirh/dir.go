package dirh

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/rand"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func bit(b []byte, i int) bool { return b[i/8]&(0x80>>uint(i%8)) != 0 }

func apart(a, b []byte, n int) bool {
	d := false
	for i := 0; i < n; i++ {
		d = vs.Or(d, bit(a, i) != bit(b, i))
	}
	return d
}

type reg struct {
	key   []byte
	epoch uint64 // first epoch that contains it
	tb    *protocol.TemporaryBinding
}

type world struct {
	d      *directory.ConiksDirectory
	pk     sign.PublicKey
	vpk    vrf.PublicKey
	vsk    vrf.PrivateKey
	names  []string
	index  [][]byte
	bound  map[string]*reg // everything ever registered
	epoch  uint64
	cap    int
	first  uint64 // oldest retained epoch
	strs   []*protocol.DirSTR
	marks  []*vs.Mark
	spread int
	bad    bool // a malformed request was sent
}

func newWorld(capacity, names int) *world {
	sk, err := sign.GenerateKey(nil)
	if err != nil {
		panic(err)
	}
	vk, err := vrf.GenerateKey(nil)
	if err != nil {
		panic(err)
	}
	w := &world{cap: capacity, spread: 2, bound: map[string]*reg{}, vsk: vk}
	w.pk, _ = sk.Public()
	w.vpk, _ = vk.Public()
	w.d = directory.New(protocol.Timestamp(vs.U64("deadline")), vk, sk, uint64(capacity), true)
	for i := 0; i < names; i++ {
		n := vs.Str("name", 1)
		ix := vk.Compute([]byte(n))
		for j := range w.names {
			vs.Assume(n != w.names[j])
			vs.Assume(apart(ix, w.index[j], w.spread))
		}
		w.names = append(w.names, n)
		w.index = append(w.index, ix)
	}
	w.note()
	return w
}

type flat struct {
	TreeHash, PreviousSTRHash, Signature, Policies []byte
	Epoch, PreviousEpoch                           uint64
}

func flatten(s *protocol.DirSTR) *flat {
	return &flat{s.TreeHash, s.PreviousSTRHash, s.Signature, s.Policies.Serialize(), s.Epoch, s.PreviousEpoch}
}

func (w *world) note() {
	s := w.d.LatestSTR()
	w.strs = append(w.strs, s)
	w.marks = append(w.marks, vs.Snapshot(flatten(s)))
}

func (w *world) update() {
	if w.epoch-w.first+1 == uint64(w.cap) {
		w.first += uint64(w.cap / 2)
		vs.Cover("evict")
	}
	w.d.Update()
	w.epoch++
	w.note()
	vs.Assert(w.strs[w.epoch].Epoch == w.epoch, "an update publishes the next epoch")
}

// in: the registration of the name, if it is in the snapshot of the epoch.
func (w *world) in(name string, epoch uint64) *reg {
	if r := w.bound[name]; r != nil && r.epoch <= epoch {
		return r
	}
	return nil
}

// sameSTR: s is the tree root published for the epoch, byte for byte.
func (w *world) sameSTR(s *protocol.DirSTR, epoch uint64) {
	vs.Assert(s != nil && s.SignedTreeRoot != nil && s.Policies != nil, "a whole tree root is returned")
	vs.Assert(vs.Same(w.marks[epoch], flatten(s)), "the published tree root is returned unmodified")
	vs.Assert(w.pk.Verify(s.Serialize(), s.Signature), "its signature verifies")
}

// proof checks an authentication path for the name in an epoch.
func (w *world) proof(ap *merkletree.AuthenticationPath, name string, epoch uint64) *reg {
	vs.Assert(ap != nil && ap.Leaf != nil, "a proof is returned")
	vs.Assert(w.vpk.Verify([]byte(name), ap.LookupIndex, ap.VrfProof), "the proof is for the requested name")
	r := w.in(name, epoch)
	if r != nil {
		vs.Assert(ap.ProofType() == merkletree.ProofOfInclusion, "a name of the snapshot is proven present")
		vs.Assert(bytes.Equal(ap.Leaf.Value, r.key), "with the key that was registered")
		vs.Assert(ap.Verify([]byte(name), r.key, w.strs[epoch].TreeHash) == nil, "the inclusion proof verifies")
	} else {
		vs.Assert(ap.ProofType() == merkletree.ProofOfAbsence, "a name that is not in the snapshot is proven absent")
		vs.Assert(ap.Verify([]byte(name), nil, w.strs[epoch].TreeHash) == nil, "the absence proof verifies")
	}
	return r
}

func body(res *protocol.Response) *protocol.DirectoryProof {
	vs.Assert(res != nil, "a response is returned")
	df, ok := res.DirectoryResponse.(*protocol.DirectoryProof)
	vs.Assert(ok && df != nil, "with a directory proof")
	vs.Assert(res.Validate() == nil, "that is well-formed")
	return df
}

func refused(res *protocol.Response, e protocol.ErrorCode, msg string) {
	vs.Assert(res != nil && res.Error == e && res.DirectoryResponse == nil, msg)
}

// promise checks a temporary binding handed out in the current epoch.
func (w *world) promise(tb *protocol.TemporaryBinding, name string, key []byte) {
	vs.Assert(tb != nil, "a promise is returned")
	vs.Assert(bytes.Equal(tb.Index, w.vsk.Compute([]byte(name))), "the promise is for the name's index")
	vs.Assert(bytes.Equal(tb.Value, key), "the promise is for the registered key")
	str := w.strs[w.epoch]
	msg := append(append(append([]byte(nil), str.Signature...), tb.Index...), tb.Value...)
	vs.Assert(w.pk.Verify(msg, tb.Signature), "the promise is signed over the latest tree root, index and key")
	vs.Assert(w.pk.Verify(tb.Serialize(str.Signature), tb.Signature), "the promise verifies as a client checks it")
	vs.Cover("promise")
}

// register registers and checks the answer.
func (w *world) register(i int, tag string) {
	n := w.names[i]
	key := vs.Bytes("key"+tag, 1+i)
	k0 := append([]byte(nil), key...)
	req := &protocol.RegistrationRequest{Username: n, Key: key}
	res := w.d.Register(req)
	vs.Assert(req.Username == n && bytes.Equal(req.Key, k0), "the request is left alone")
	df := body(res)
	vs.Assert(len(df.AP) == 1 && len(df.STR) == 1, "one proof and one tree root")
	w.sameSTR(df.STR[0], w.epoch)
	r := w.proof(df.AP[0], n, w.epoch)
	old := w.bound[n]
	switch {
	case r != nil:
		vs.Assert(res.Error == protocol.ReqNameExisted, "a published name is refused")
		vs.Assert(df.TB == nil, "without a promise")
		vs.Cover("exists")
	case old != nil:
		vs.Assert(res.Error == protocol.ReqNameExisted, "a promised name is refused")
		w.promise(df.TB, n, old.key)
		vs.Cover("promised")
	default:
		vs.Assert(res.Error == protocol.ReqSuccess, "an unused name is registered")
		w.promise(df.TB, n, k0)
		w.bound[n] = &reg{key: k0, epoch: w.epoch + 1, tb: df.TB}
		vs.Cover("registered")
	}
}

// malformed sends a registration that has to be refused.
func (w *world) malformed(i int) {
	req := &protocol.RegistrationRequest{Username: w.names[i], Key: vs.Bytes("mkey", 1)}
	switch vs.Choose("malformed", 4) {
	case 0:
		req.Username = ""
	case 1:
		req.Key = nil
	case 2:
		req.Key = []byte{}
	case 3:
		req.Username, req.Key = "", nil
	}
	w.bad = true
	refused(w.d.Register(req), protocol.ErrMalformedMessage, "a registration without name or key is malformed")
	vs.Cover("malformed")
}

// lookup looks a name up and checks the answer.
func (w *world) lookup(i int) {
	n := w.names[i]
	res := w.d.KeyLookup(&protocol.KeyLookupRequest{Username: n})
	df := body(res)
	vs.Assert(len(df.AP) == 1 && len(df.STR) == 1, "one proof and one tree root")
	w.sameSTR(df.STR[0], w.epoch)
	r := w.proof(df.AP[0], n, w.epoch)
	old := w.bound[n]
	switch {
	case r != nil:
		vs.Assert(res.Error == protocol.ReqSuccess, "a published name is found")
		vs.Assert(df.TB == nil, "a published name comes without a promise")
		vs.Cover("found")
	case old != nil:
		vs.Assert(res.Error == protocol.ReqSuccess, "a promised name is found")
		w.promise(df.TB, n, old.key)
		vs.Cover("found by promise")
	default:
		vs.Assert(res.Error == protocol.ReqNameNotFound, "an unknown name is not found")
		vs.Assert(df.TB == nil, "an unknown name comes without a promise")
		vs.Cover("not found")
	}
}

func (w *world) step(tag string, kinds int) {
	switch k := vs.Choose("op"+tag, kinds); k {
	case 0:
		w.update()
	case 1, 2:
		w.register(k-1, tag)
	case 3:
		vs.Assume(!w.bad)
		w.malformed(0)
	}
}

func ops(quick, thorough int) int {
	if vs.Thorough() {
		return thorough
	}
	return quick
}

// Register: C17.
func Register() {
	w := newWorld(10, 2)
	n := ops(4, 5)
	for i := 0; i < n; i++ {
		w.step(string(rune('0'+i)), 4)
	}
	// what was registered, and nothing else, is in the next epoch
	w.update()
	for i := range w.names {
		w.lookup(i)
	}
}

// Lookup: C18.
func Lookup() {
	w := newWorld(10, 3)
	n := vs.Choose("ops", ops(3, 5)+1)
	for i := 0; i < n; i++ {
		w.step(string(rune('0'+i)), 3)
	}
	if n == 1 {
		refused(w.d.KeyLookup(&protocol.KeyLookupRequest{}), protocol.ErrMalformedMessage, "an empty name is malformed")
		vs.Cover("empty name")
	}
	for i := range w.names {
		w.lookup(i)
	}
	// a lookup changes nothing
	w.lookup(0)
	w.lookup(1)
}

// Promises: C21.
func Promises() {
	w := newWorld(10, 2)
	if vs.Choose("earlier", 2) == 1 {
		w.update()
	}
	w.register(0, "a")
	tb := w.bound[w.names[0]].tb
	m := vs.Snapshot(tb)
	if vs.Choose("other", 2) == 1 {
		w.register(1, "b")
	}
	if vs.Choose("again", 2) == 1 {
		w.register(0, "c")
	}
	w.lookup(0)
	vs.Assert(vs.Same(m, tb), "a promise does not change")
	n := 1 + vs.Choose("updates", ops(2, 4))
	for i := 0; i < n; i++ {
		w.update()
		res := w.d.KeyLookup(&protocol.KeyLookupRequest{Username: w.names[0]})
		df := body(res)
		vs.Assert(df.TB == nil, "a kept promise is no longer served")
		ap := df.AP[0]
		vs.Assert(ap.ProofType() == merkletree.ProofOfInclusion && bytes.Equal(ap.Leaf.Value, tb.Value) &&
			bytes.Equal(ap.LookupIndex, tb.Index) && bytes.Equal(ap.Leaf.Index, tb.Index), "the next epoch holds exactly the promised binding")
		vs.Assert(ap.Verify([]byte(w.names[0]), tb.Value, df.STR[0].TreeHash) == nil, "and proves it")
		w.register(0, "d"+string(rune('0'+i)))
		w.lookup(0)
		w.lookup(1)
	}
	vs.Cover("kept")
}

// history builds a directory with a few epochs and registrations.
func history(capacity int) *world {
	w := newWorld(capacity, 2)
	when := vs.Choose("registered at", 3) // before epoch 1, 2, or not at all
	n := vs.Choose("updates", ops(4, 9)+1)
	for i := 0; i < n; i++ {
		if i == when && when < 2 {
			w.register(0, "h")
		}
		w.update()
	}
	return w
}

// InEpoch: C19, lookups in past epochs.
func InEpoch() {
	w := history(2 + vs.Choose("cap", ops(2, 5)))
	e := vs.U64("epoch")
	name := ""
	switch vs.Choose("who", 4) {
	case 0:
		name = w.names[0]
	case 1:
		name = w.names[1]
	case 2:
		name = w.names[1]
		w.register(1, "p") // promised for the next epoch
	}
	req := &protocol.KeyLookupInEpochRequest{Username: name, Epoch: e}
	res := w.d.KeyLookupInEpoch(req)
	switch {
	case req.Username == "" || e > w.epoch:
		refused(res, protocol.ErrMalformedMessage, "an empty name or future epoch is malformed")
		vs.Cover("malformed")
	case e < w.first:
		refused(res, protocol.ErrDirectory, "an epoch no longer retained is a directory error")
		vs.Cover("evicted")
	default:
		k := uint64(vs.ConcInt(int(e)))
		df := body(res)
		vs.Assert(len(df.AP) == 1 && uint64(len(df.STR)) == w.epoch-k+1, "one proof, and a tree root for every epoch up to the latest")
		for i, s := range df.STR {
			w.sameSTR(s, k+uint64(i))
		}
		vs.Assert(df.TB == nil, "no promise for a past epoch")
		if w.proof(df.AP[0], name, k) != nil {
			vs.Assert(res.Error == protocol.ReqSuccess, "found")
			vs.Cover("found")
		} else {
			vs.Assert(res.Error == protocol.ReqNameNotFound, "not found")
			vs.Cover("not found")
		}
	}
}

// Monitor: C19, monitoring.
func Monitor() {
	w := history(2 + vs.Choose("cap", ops(2, 5)))
	from, to := vs.U64("from"), vs.U64("to")
	name := ""
	if i := vs.Choose("who", 3); i < 2 {
		name = w.names[i]
	}
	req := &protocol.MonitoringRequest{Username: name, StartEpoch: from, EndEpoch: to}
	res := w.d.Monitor(req)
	switch {
	case req.Username == "" || from > w.epoch || from > to:
		refused(res, protocol.ErrMalformedMessage, "an empty name, a future start or an inverted range is malformed")
		vs.Cover("malformed")
	case from < w.first:
		refused(res, protocol.ErrDirectory, "epochs no longer retained are a directory error")
		vs.Cover("evicted")
	default:
		k := uint64(vs.ConcInt(int(from)))
		end := w.epoch
		if to < end {
			end = uint64(vs.ConcInt(int(to)))
			vs.Cover("partial")
		}
		df := body(res)
		vs.Assert(res.Error == protocol.ReqSuccess, "monitoring succeeds")
		vs.Assert(uint64(len(df.AP)) == end-k+1 && uint64(len(df.STR)) == end-k+1, "one proof and one tree root per epoch")
		vs.Assert(df.TB == nil, "no promise")
		for i := range df.STR {
			w.sameSTR(df.STR[i], k+uint64(i))
			w.proof(df.AP[i], name, k+uint64(i))
		}
		vs.Cover("monitored")
	}
}

// STRHistory: C20.
func STRHistory() {
	w := history(2 + vs.Choose("cap", ops(3, 6)))
	from, to := vs.U64("from"), vs.U64("to")
	res := w.d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: from, EndEpoch: to})
	switch {
	case from > w.epoch || from > to:
		refused(res, protocol.ErrMalformedMessage, "a future start or an inverted range is malformed")
		vs.Cover("malformed")
	case from < w.first:
		refused(res, protocol.ErrDirectory, "a range that is no longer retained is a directory error")
		vs.Cover("evicted")
	default:
		k := uint64(vs.ConcInt(int(from)))
		end := w.epoch
		if to < end {
			end = uint64(vs.ConcInt(int(to)))
			vs.Cover("partial")
		}
		vs.Assert(res != nil && res.Error == protocol.ReqSuccess, "the range is returned")
		h, ok := res.DirectoryResponse.(*protocol.STRHistoryRange)
		vs.Assert(ok && uint64(len(h.STR)) == end-k+1, "every epoch of the range, no other")
		for i := range h.STR {
			w.sameSTR(h.STR[i], k+uint64(i))
		}
		vs.Assert(res.Validate() == nil, "the range is well-formed")
		vs.Cover("range")
	}
}

// RandFails: C10, a registration whose commitment cannot be made is refused
// and leaves no trace.
func RandFails() {
	w := newWorld(10, 2)
	if vs.Choose("other", 2) == 1 {
		w.register(1, "o")
	}
	rand.FailAt = rand.Reads
	res := w.d.Register(&protocol.RegistrationRequest{Username: w.names[0], Key: vs.Bytes("key", 1)})
	refused(res, protocol.ErrDirectory, "a registration without randomness is a directory error")
	rand.FailAt = -1
	w.lookup(0) // neither promised
	w.update()
	w.lookup(0) // nor published
	w.lookup(1)
	w.register(0, "r")
	vs.Cover("registration fails")
}
