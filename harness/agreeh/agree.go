package agreeh

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/internal/verifh/adv"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
	"github.com/coniks-sys/coniks-go/protocol/client"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func bit(b []byte, i int) bool { return b[i/8]&(0x80>>uint(i%8)) != 0 }

func apart(a, b []byte, n int) bool {
	d := false
	for i := 0; i < n; i++ {
		d = vs.Or(d, bit(a, i) != bit(b, i))
	}
	return d
}

// wire sends a response over the network.
func wire(t int, r *protocol.Response) *protocol.Response {
	b, err := application.MarshalResponse(r)
	if err != nil {
		panic(err)
	}
	return application.UnmarshalResponse(t, b)
}

type world struct {
	d     *directory.ConiksDirectory
	pk    sign.PublicKey
	names []string
	keys  map[string][]byte
	cc    *client.ConsistencyChecks
	log   auditlog.ConiksAuditLog
	id    [32]byte
	epoch uint64
	wide  bool
}

// choose forks only in wide runs.
func (w *world) choose(name string, n int) int {
	if !w.wide {
		return 0
	}
	return vs.Choose(name, n)
}

func (w *world) init(names int) {
	sk, err := sign.GenerateKey(nil)
	if err != nil {
		panic(err)
	}
	vk, err := vrf.GenerateKey(nil)
	if err != nil {
		panic(err)
	}
	w.pk, _ = sk.Public()
	w.keys = map[string][]byte{}
	w.d = directory.New(protocol.Timestamp(vs.U64("deadline")), vk, sk, 10, true)
	var ixs [][]byte
	for i := 0; i < names; i++ {
		n := vs.Str("name", 1)
		ix := vk.Compute([]byte(n))
		for j := range w.names {
			vs.Assume(vs.And(vs.Not(vs.StrEq(n, w.names[j])), apart(ix, ixs[j], 2)))
		}
		w.names, ixs = append(w.names, n), append(ixs, ix)
	}
	first := w.strs(0, 0)
	vs.Assert(len(first) == 1, "the initial root is published")
	w.cc = client.New(first[0], true, w.pk)
	w.log = auditlog.New()
	init := adv.CopySTR(first[0])
	vs.Assert(w.log.InitHistory("server", w.pk, []*protocol.DirSTR{init}) == nil, "an audit log accepts the directory's first root")
	w.id = auditor.ComputeDirectoryIdentity(init)
}

// strs asks the directory for its history, as an auditor does.
func (w *world) strs(from, to uint64) []*protocol.DirSTR {
	r := wire(protocol.STRType, w.d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: from, EndEpoch: to}))
	h, ok := r.DirectoryResponse.(*protocol.STRHistoryRange)
	vs.Assert(ok && r.Error == protocol.ReqSuccess, "the directory serves its history")
	return h.STR
}

func (w *world) recorded(name string) {
	b, ok := w.cc.Bindings[name]
	vs.Assert(ok && bytes.Equal(b, w.keys[name]), "the client has recorded the registered key")
}

func (w *world) register(i int, tag string) {
	name, key := w.names[i], vs.Bytes("key"+tag, 1)
	old, existed := w.keys[name]
	r := wire(protocol.RegistrationType, w.d.Register(&protocol.RegistrationRequest{Username: name, Key: append([]byte(nil), key...)}))
	err := w.cc.HandleResponse(protocol.RegistrationType, r, name, append([]byte(nil), key...))
	if !existed {
		w.keys[name] = key
		vs.Assert(err == nil && r.Error == protocol.ReqSuccess, "a registration is accepted")
		w.recorded(name)
		vs.Cover("registered")
		return
	}
	vs.Assert(r.Error == protocol.ReqNameExisted, "a second registration is refused")
	vs.Assert(vs.Iff(err == nil, bytes.Equal(old, key)), "its proof is accepted for the registered key")
	if err == nil {
		w.recorded(name)
		vs.Cover("same key")
	} else {
		vs.Assert(err == protocol.CheckBindingsDiffer, "another key is a different binding")
		vs.Cover("other key")
	}
}

func (w *world) lookup(i int, known bool) {
	name := w.names[i]
	r := wire(protocol.KeyLookupType, w.d.KeyLookup(&protocol.KeyLookupRequest{Username: name}))
	key, existed := w.keys[name]
	var want []byte
	if known && existed {
		want = append(want, key...)
	}
	err := w.cc.HandleResponse(protocol.KeyLookupType, r, name, want)
	vs.Assert(err == nil, "a lookup is accepted")
	if existed {
		vs.Assert(r.Error == protocol.ReqSuccess, "a registered name is found")
		w.recorded(name)
		k, err := r.GetKey()
		vs.Assert(err == nil && bytes.Equal(k, key), "with its key")
		vs.Cover("found")
	} else {
		vs.Assert(r.Error == protocol.ReqNameNotFound, "an unknown name is not found")
		vs.Cover("not found")
	}
}

func (w *world) update() {
	w.d.Update()
	w.epoch++
	// the client follows
	w.lookup(vs.Choose("follow", len(w.names)), w.choose("known", 2) == 1)
	vs.Assert(w.cc.VerifiedSTR().Epoch == w.epoch, "the client follows the directory")
	vs.Cover("update")
}

// audit brings the log up to date and compares the client's view with it.
func (w *world) audit() {
	h := w.log[w.id]
	from := h.VerifiedSTR().Epoch
	if vs.Choose("overlap", 2) == 1 && from < w.epoch {
		from++
	}
	r := protocol.NewSTRHistoryRange(w.strs(from, w.epoch))
	vs.Assert(h.Audit(r) == nil, "an audit log accepts every published root")
	vs.Assert(h.VerifiedSTR().Epoch == w.epoch, "and is up to date")
	start := uint64(w.choose("start", int(w.epoch)+1))
	obs := wire(protocol.STRType, w.log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: w.id, StartEpoch: start, EndEpoch: w.epoch}))
	vs.Assert(w.cc.CheckEquivocation(obs) == nil, "client and auditor see the same directory")
	vs.Cover("audited")
}

func size(q, t int) int {
	if vs.Thorough() {
		return t
	}
	return q
}

// Agree: C28.
func Agree() { run(false, size(3, 4)) }

// AgreeWide: C28, fewer operations with more variants.
func AgreeWide() { run(true, size(2, 3)) }

// Follow: C28. A log and an auditor that catch up at any time, in ranges that
// may begin with the root they verified last, and a client that may be one
// epoch behind.
func Follow() {
	w := &world{}
	w.init(1)
	aud := auditor.New(w.pk, adv.CopySTR(w.strs(0, 0)[0]))
	register := !vs.Thorough() || vs.Choose("register", 2) == 1
	behind := false
	follow := func() {
		w.lookup(0, true)
		behind = false
		vs.Assert(w.cc.VerifiedSTR().Epoch == w.epoch, "the client follows the directory")
	}
	n := size(4, 5)
	for i := 0; i < n; i++ {
		tag := string(rune('0' + i))
		switch vs.Choose("op"+tag, 4) {
		case 0:
			if register && len(w.keys) == 0 {
				w.register(0, tag)
			}
			if behind {
				follow()
			}
			w.d.Update()
			w.epoch++
			behind = true
			vs.Cover("update")
		case 1:
			vs.Assume(behind)
			follow()
		case 2:
			h := w.log[w.id]
			from, to := w.span(h.VerifiedSTR().Epoch, tag)
			vs.Assert(h.Audit(protocol.NewSTRHistoryRange(w.strs(from, to))) == nil, "an audit log accepts every published range")
			vs.Assert(h.VerifiedSTR().Epoch == to, "and follows it")
		case 3:
			from, to := w.span(aud.VerifiedSTR().Epoch, tag)
			strs := w.strs(from, to)
			vs.Assert(aud.AuditDirectory(strs) == nil, "an auditor accepts every published range")
			aud.Update(strs[len(strs)-1])
		}
	}
	last := w.log[w.id].VerifiedSTR().Epoch
	start := uint64(vs.Choose("start", int(last)+1))
	obs := wire(protocol.STRType, w.log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: w.id, StartEpoch: start, EndEpoch: last}))
	got, ok := obs.DirectoryResponse.(*protocol.STRHistoryRange)
	vs.Assert(ok && obs.Error == protocol.ReqSuccess && len(got.STR) == int(last-start)+1, "the log serves what it audited")
	for i, str := range got.STR {
		vs.Assert(str.Epoch == start+uint64(i), "epoch by epoch")
	}
	mine := w.cc.VerifiedSTR().Epoch
	err := w.cc.CheckEquivocation(obs)
	if last == mine || last == mine+1 {
		vs.Assert(err == nil, "client and auditor see the same directory")
		vs.Cover("agree")
	} else {
		vs.Assert(err != nil, "a log that is further away settles nothing")
		vs.Cover("apart")
	}
}

// span is a published range that continues after, or with, epoch v.
func (w *world) span(v uint64, tag string) (from, to uint64) {
	from = v
	if vs.Choose("overlap"+tag, 2) == 0 {
		vs.Assume(v < w.epoch)
		from++
	}
	return from, from + uint64(vs.Choose("length"+tag, int(w.epoch-from)+1))
}

func run(wide bool, n int) {
	w := &world{wide: wide}
	w.init(2)
	for i := 0; i < n; i++ {
		tag := string(rune('0' + i))
		k := 5
		if i == 0 {
			k = 4
		}
		switch vs.Choose("op"+tag, k) {
		case 0:
			w.register(0, tag)
		case 1:
			w.update()
		case 2:
			w.lookup(0, w.choose("unknown", 2) == 0)
		case 3:
			w.register(1, tag)
		case 4:
			w.lookup(1, false)
		}
	}
	w.audit()
}
