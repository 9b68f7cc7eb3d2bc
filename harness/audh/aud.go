package audh

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/internal/verifh/adv"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
)

// strRange is any range of up to n tree roots; its first may be a copy of v.
func strRange(v *protocol.DirSTR, n int) []*protocol.DirSTR {
	k := vs.Choose("length", n+1)
	var strs []*protocol.DirSTR
	for i := 0; i < k; i++ {
		tag := string(rune('0' + i))
		n := 4
		if i == 0 {
			n = 5
		}
		switch vs.Choose("kind"+tag, n) {
		case 0:
			strs = append(strs, adv.WireSTR(tag))
		case 1:
			strs = append(strs, nil)
		case 2:
			s := adv.WireSTR(tag)
			s.SignedTreeRoot = nil
			strs = append(strs, s)
		case 3:
			s := adv.WireSTR(tag)
			s.Policies = nil
			strs = append(strs, s)
		case 4:
			strs = append(strs, adv.CopySTR(v))
		}
	}
	return strs
}

// Audit: C22.
func Audit() {
	pk := sign.PublicKey(vs.Bytes("pk", 32))
	v := adv.WireSTR("V")
	vs.Assume(v.Epoch < 1<<63)
	a := auditor.New(pk, v)
	strs := strRange(v, adv.Size(3, 4))
	mv := vs.Snapshot(v)
	ms := vs.Snapshot(strs)
	err := a.AuditDirectory(strs)
	vs.Assert(a.VerifiedSTR() == v && vs.Same(mv, v), "an audit does not change the verified state")
	vs.Assert(vs.Same(ms, strs), "an audit does not change the range")
	want := adv.Valid(pk, v, strs)
	vs.Assert(vs.Iff(err == nil, want), "an audit succeeds iff the range is a signed extension of the verified root")
	if len(strs) == 0 {
		vs.Assert(err == protocol.ErrMalformedMessage, "an empty range is malformed")
		vs.Cover("empty")
	}
	for _, s := range strs {
		if !adv.Whole(s) {
			vs.Cover("null")
		}
	}
	if err == nil {
		vs.Cover("accepted " + string(rune('0'+len(strs))))
	} else {
		vs.Cover("refused")
	}
	// a single check against the verified root
	if len(strs) == 1 {
		e1 := a.CheckSTRAgainstVerified(strs[0])
		vs.Assert(vs.Iff(e1 == nil, want), "a single check agrees")
		vs.Assert(a.VerifiedSTR() == v, "a check does not change the verified state")
	}
	if len(strs) > 1 && adv.Whole(strs[0]) {
		e2 := a.VerifySTRRange(strs[0], strs[1:])
		ok := true
		for i := 1; i < len(strs); i++ {
			if !adv.Whole(strs[i]) || !adv.Whole(strs[i-1]) {
				ok = false
				break
			}
			ok = vs.And(ok, adv.Signed(pk, strs[i]), adv.Extends(strs[i-1], strs[i]))
		}
		vs.Assert(vs.Iff(e2 == nil, ok), "a range check succeeds iff every root extends its predecessor")
	}
	u := adv.WireSTR("U")
	a.Update(u)
	vs.Assert(a.VerifiedSTR() == u, "an explicit update sets the verified root")
}

func history(h *protocol.Response) []*protocol.DirSTR {
	r, ok := h.DirectoryResponse.(*protocol.STRHistoryRange)
	if !ok {
		return nil
	}
	return r.STR
}

// logged is what the log should hold for one directory.
type logged struct {
	id   [crypto.HashSizeByte]byte
	pk   sign.PublicKey
	strs []*protocol.DirSTR // by epoch
	mark []*vs.Mark
}

func (h *logged) add(s *protocol.DirSTR) {
	h.strs = append(h.strs, s)
	h.mark = append(h.mark, vs.Snapshot(s))
}

// query asks for a range and checks the answer.
func (h *logged) query(l auditlog.ConiksAuditLog, tag string) {
	from, to := vs.U64("from"+tag), vs.U64("to"+tag)
	res := l.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: h.id, StartEpoch: from, EndEpoch: to})
	vs.Assert(res != nil, "a query is answered")
	if to >= uint64(len(h.strs)) || from > to {
		vs.Assert(res.Error == protocol.ErrMalformedMessage && res.DirectoryResponse == nil, "a bad range is refused")
		vs.Cover("bad range")
		return
	}
	f, t := vs.ConcInt(int(from)), vs.ConcInt(int(to))
	got := history(res)
	vs.Assert(res.Error == protocol.ReqSuccess && len(got) == t-f+1, "a query returns the requested epochs")
	for i, s := range got {
		vs.Assert(vs.Same(h.mark[f+i], s), "exactly the stored roots, in order")
	}
	vs.Cover("served")
}

func (h *logged) verified(l auditlog.ConiksAuditLog) {
	d := l[h.id]
	vs.Assert(d != nil, "the directory is known")
	vs.Assert(vs.Same(h.mark[len(h.strs)-1], d.VerifiedSTR()), "the verified root is the last stored one")
}

// Log: C23.
func Log() {
	l := auditlog.New()
	pk := sign.PublicKey(vs.Bytes("pk", 32))
	s0 := adv.WireSTR("A")
	bad := vs.Choose("init", 3)
	switch bad {
	case 1:
		vs.Assert(l.InitHistory("a", pk, nil) != nil, "a directory needs an initial root")
		vs.Assert(len(l) == 0, "nothing is recorded")
		vs.Cover("no root")
		return
	case 2:
		vs.Assume(s0.Epoch != 0)
		vs.Assert(l.InitHistory("a", pk, []*protocol.DirSTR{s0}) != nil, "a directory needs an epoch-0 root")
		vs.Assert(len(l) == 0, "nothing is recorded")
		vs.Cover("not epoch 0")
		return
	}
	vs.Assume(s0.Epoch == 0)
	h := &logged{pk: pk}
	init := []*protocol.DirSTR{s0}
	h.add(s0)
	if vs.Choose("saved", 2) == 1 { // a saved history of two roots
		s1 := adv.WireSTR("B")
		vs.Assume(vs.And(adv.Signed(pk, s1), adv.Extends(s0, s1)))
		init = append(init, s1)
		h.add(s1)
	}
	vs.Assert(l.InitHistory("a", pk, init) == nil, "a new directory is recorded")
	copy(h.id[:], crypto.Digest(s0.Signature))
	vs.Assert(auditor.ComputeDirectoryIdentity(s0) == h.id, "a directory is identified by its initial root")
	h.verified(l)
	// a second directory in the same log
	var other *logged
	scene := vs.Choose("scene", 3)
	if scene == 1 {
		o0 := adv.WireSTR("O")
		vs.Assume(vs.And(o0.Epoch == 0, vs.Not(bytes.Equal(o0.Signature, s0.Signature))))
		other = &logged{pk: sign.PublicKey(vs.Bytes("opk", 32))}
		other.add(o0)
		copy(other.id[:], crypto.Digest(o0.Signature))
		vs.Assert(l.InitHistory("o", other.pk, []*protocol.DirSTR{o0}) == nil, "another directory is recorded")
		vs.Cover("two directories")
	}
	if scene == 2 { // the same directory cannot be initialised again
		again := adv.WireSTR("C")
		vs.Assume(again.Epoch == 0)
		again.Signature = append([]byte(nil), s0.Signature...)
		vs.Assert(l.InitHistory("b", sign.PublicKey(vs.Bytes("pk2", 32)), []*protocol.DirSTR{again}) == protocol.ErrAuditLog, "a directory cannot be initialised twice")
		h.verified(l)
		vs.Assert(len(l) == 1, "nothing is recorded")
		h.query(l, "")
		return
	}
	// audits
	max, longest := 2, 2
	if scene == 0 {
		max, longest = adv.Size(2, 3), adv.Size(2, 3)
	}
	n := vs.Choose("audits", max)
	if n == 2 {
		longest = 2
	}
	for i := 0; i < n; i++ {
		last := h.strs[len(h.strs)-1]
		k := vs.Choose("length", longest+1)
		var strs []*protocol.DirSTR
		for j := 0; j < k; j++ {
			strs = append(strs, adv.WireSTR(string(rune('a'+i))+string(rune('0'+j))))
		}
		want := adv.Valid(h.pk, last, strs)
		err := l[h.id].Audit(protocol.NewSTRHistoryRange(strs))
		vs.Assert(vs.Iff(err == nil, want), "a range is recorded iff it passes the audit")
		if err == nil {
			for _, s := range strs {
				if s.Epoch == last.Epoch {
					continue // the verified root once more
				}
				h.add(s)
			}
			vs.Cover("recorded")
		} else {
			vs.Cover("refused")
		}
		h.verified(l)
	}
	if other != nil {
		other.verified(l)
	}
	vs.Assert(vs.Iff(other == nil, len(l) == 1), "only initialised directories are known")
	if other == nil || n == 0 {
		h.query(l, "")
	}
	if other != nil {
		other.query(l, "o")
	}
	var id [crypto.HashSizeByte]byte
	copy(id[:], vs.Bytes("unknown", crypto.HashSizeByte))
	if id != h.id && (other == nil || id != other.id) {
		res := l.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: 0, EndEpoch: 0})
		vs.Assert(res.Error == protocol.ReqUnknownDirectory && res.DirectoryResponse == nil, "an unknown directory is refused")
		vs.Cover("unknown")
	}
}
