package clih

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/internal/verifh/adv"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/ed25519"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
	"github.com/coniks-sys/coniks-go/protocol/client"
)

const (
	none = iota
	sameEpoch
	earlierEpoch
)

// state is a client with everything it has verified so far.
type state struct {
	cc    *client.ConsistencyChecks
	pk    sign.PublicKey
	v     *protocol.DirSTR
	uname string
	held  *protocol.TemporaryBinding // for uname
	when  int
	bound []byte // binding recorded for uname
	isSet bool
	other *protocol.TemporaryBinding
}

func promise(pk sign.PublicKey, strSig []byte, tag string) *protocol.TemporaryBinding {
	tb := &protocol.TemporaryBinding{Index: vs.Bytes("index"+tag, 32), Value: vs.Bytes("value"+tag, 1)}
	tb.Signature = ed25519.Sig(pk, tbBytes(strSig, tb))
	return tb
}

func tbBytes(strSig []byte, tb *protocol.TemporaryBinding) []byte {
	var b []byte
	b = append(b, strSig...)
	b = append(b, tb.Index...)
	return append(b, tb.Value...)
}

// newState is any client state after any number of answers: the pinned root
// is arbitrary, a held promise was signed for it or for an earlier root.
func newState(when int, bound bool) *state {
	s := &state{pk: sign.PublicKey(vs.Bytes("pk", 32)), v: adv.WireSTR("V"), uname: vs.Str("uname", 2), when: when}
	vs.Assume(s.v.Epoch < 1<<63)
	s.cc = client.New(s.v, true, s.pk)
	switch when {
	case sameEpoch:
		s.held = promise(s.pk, s.v.Signature, "H")
	case earlierEpoch:
		sig := vs.Bytes("earlier", 64)
		vs.Assume(vs.Not(bytes.Equal(sig, s.v.Signature)))
		s.held = promise(s.pk, sig, "H")
	}
	if s.held != nil {
		s.cc.TBs[s.uname] = s.held
	}
	if bound {
		s.bound, s.isSet = vs.Bytes("bound", 1), true
		s.cc.Bindings[s.uname] = s.bound
	}
	s.other = promise(s.pk, s.v.Signature, "O")
	s.cc.TBs["someone else"] = s.other
	s.cc.Bindings["someone else"] = []byte{1, 2, 3}
	return s
}

func copyAP(a *merkletree.AuthenticationPath) *merkletree.AuthenticationPath {
	b := &merkletree.AuthenticationPath{
		TreeNonce: a.TreeNonce, PrunedTree: a.PrunedTree, LookupIndex: a.LookupIndex, VrfProof: a.VrfProof,
	}
	if a.Leaf != nil {
		l := *a.Leaf
		b.Leaf = &l
	}
	return b
}

// answer is what the directory sent, with what an independent verifier
// would say about it.
type answer struct {
	reg   bool
	msg   *protocol.Response
	key   []byte
	ap    *merkletree.AuthenticationPath
	str   *protocol.DirSTR
	tb    *protocol.TemporaryBinding
	isErr bool
	incl  bool
	kind  bool // the result matches the kind of proof
	found bool // the answer says there is a binding

	equal, signed, extends bool // the root
	vrf                    bool
	path                   error
	differ                 bool // the value in the path is not the expected one
	tbSig, tbIndex, tbKey  bool
}

type shape struct {
	levels, odd int
	lookupOnly  bool
	tag         string
}

// arbitrary is any complete answer to a registration or lookup.
func arbitrary(s *state, sh shape) *answer {
	reg := !sh.lookupOnly && vs.Choose("registration"+sh.tag, 2) == 1
	var key []byte
	switch vs.Choose("known key"+sh.tag, 3) {
	case 1:
		key = vs.Bytes("key"+sh.tag, 1)
	case 2:
		if vs.Thorough() {
			key = []byte{}
		} else {
			vs.Assume(false)
		}
	}
	return answerTo(s, sh, reg, key)
}

// answerTo is any complete answer to the given request.
func answerTo(s *state, sh shape, reg bool, key []byte) *answer {
	a := &answer{reg: reg, key: key}
	tag := sh.tag
	code := protocol.ErrorCode(vs.Int("code"+tag, 0, 400))
	switch {
	case code == protocol.ReqSuccess:
		code = protocol.ReqSuccess
	case code == protocol.ReqNameExisted:
		code = protocol.ReqNameExisted
	case code == protocol.ReqNameNotFound:
		code = protocol.ReqNameNotFound
	}
	a.isErr = vs.Or(code == protocol.ErrMalformedMessage, code == protocol.ErrDirectory, code == protocol.ErrAuditLog)
	a.str = s.v
	if vs.Choose("new root"+tag, 2) == 1 {
		a.str = adv.WireSTR("S" + tag)
	} else {
		a.str = adv.CopySTR(s.v)
	}
	a.ap = adv.HostilePath("A"+tag, vs.Bytes("lookup"+tag, 32), sh.levels, sh.odd)
	a.ap.VrfProof = vs.Bytes("proof"+tag, 96)
	if vs.Choose("promise"+tag, 2) == 1 {
		n := 32
		if sh.odd > 0 {
			n -= vs.Choose("short index"+tag, 2)
		}
		a.tb = &protocol.TemporaryBinding{Index: vs.Bytes("tbindex"+tag, n), Value: vs.Bytes("tbvalue"+tag, 1), Signature: vs.Bytes("tbsig"+tag, 64)}
	}
	a.msg = &protocol.Response{Error: code, DirectoryResponse: &protocol.DirectoryProof{
		AP: []*merkletree.AuthenticationPath{a.ap}, STR: []*protocol.DirSTR{a.str}, TB: a.tb}}
	a.judge(s)
	return a
}

// judge works out the independent verdicts.
func (a *answer) judge(s *state) {
	c := copyAP(a.ap)
	a.incl = c.ProofType() == merkletree.ProofOfInclusion
	code := a.msg.Error
	if a.reg {
		a.kind = vs.Or(code == protocol.ReqNameExisted, vs.And(!a.incl, code == protocol.ReqSuccess))
		a.found = true
	} else {
		a.kind = vs.Or(vs.And(!a.incl, code == protocol.ReqNameNotFound), code == protocol.ReqSuccess)
		a.found = code == protocol.ReqSuccess
	}
	a.equal = adv.Equal(s.v, a.str)
	a.signed = adv.Signed(s.pk, a.str)
	a.extends = adv.Extends(s.v, a.str)
	a.vrf = a.str.Policies.VrfPublicKey.Verify([]byte(s.uname), c.LookupIndex, c.VrfProof)
	want := a.key
	if want == nil {
		want = c.Leaf.Value
	}
	a.differ = a.incl && !bytes.Equal(want, c.Leaf.Value)
	a.path = c.Verify([]byte(s.uname), want, a.str.TreeHash)
	if a.tb != nil {
		a.tbSig = bytes.Equal(a.tb.Signature, ed25519.Sig(s.pk, tbBytes(a.str.Signature, a.tb)))
		a.tbIndex = bytes.Equal(a.tb.Index, c.LookupIndex)
		a.tbKey = a.key == nil || bytes.Equal(a.tb.Value, a.key)
	}
}

// rootOK: the tree root is the pinned one or its signed direct successor.
func (a *answer) rootOK() bool { return vs.Or(a.equal, vs.And(a.signed, a.extends)) }

// proven: everything but the promises is in order.
func (a *answer) proven() bool {
	return vs.And(vs.Not(a.isErr), a.kind, a.rootOK(), a.vrf, a.path == nil)
}

func (a *answer) needsPromise() bool { return vs.And(!a.incl, a.found) }

func (a *answer) promiseOK() bool {
	return vs.Implies(a.needsPromise(), vs.And(a.tb != nil, a.tbSig, a.tbIndex, a.tbKey))
}

// broken: the answer contradicts the promise the client holds.
func (a *answer) broken(s *state) bool {
	if s.held == nil {
		return false
	}
	if a.incl {
		return vs.Not(vs.And(bytes.Equal(a.ap.LookupIndex, s.held.Index), bytes.Equal(a.ap.Leaf.Value, s.held.Value)))
	}
	if a.tb == nil {
		return true
	}
	later := vs.Not(bytes.Equal(s.held.Signature, ed25519.Sig(s.pk, tbBytes(a.str.Signature, s.held))))
	same := vs.And(bytes.Equal(a.tb.Index, s.held.Index), bytes.Equal(a.tb.Value, s.held.Value))
	return vs.Or(vs.Not(a.found), later, vs.Not(same))
}

func (s *state) handle(a *answer) error {
	t := protocol.KeyLookupType
	if a.reg {
		t = protocol.RegistrationType
	}
	var key []byte
	if a.key != nil {
		key = append(make([]byte, 0, len(a.key)), a.key...)
	}
	return s.cc.HandleResponse(t, a.msg, s.uname, key)
}

func size(q, t int) int {
	if vs.Thorough() {
		return t
	}
	return q
}

func cover(a *answer, err error) {
	switch {
	case err != nil:
		vs.Cover("refused")
	case a.incl && a.reg:
		vs.Cover("name exists")
	case a.incl:
		vs.Cover("found")
	case a.reg:
		vs.Cover("registered")
	case a.needsPromise():
		vs.Cover("found promised")
	default:
		vs.Cover("not found")
	}
}

// Accept: C24.
func Accept() {
	s := newState(none, false)
	a := arbitrary(s, shape{levels: 1, odd: size(0, 1)})
	err := s.handle(a)
	cover(a, err)
	vs.Assert(vs.Iff(err == nil, vs.And(a.proven(), a.promiseOK())), "an answer is accepted iff every part of it is proven")
	named := true
	switch err {
	case nil:
	case protocol.CheckBadSTR:
		named = vs.Not(vs.Or(a.equal, a.extends))
	case protocol.CheckBadSignature:
		named = vs.Or(vs.Not(a.signed), vs.And(a.needsPromise(), vs.Not(a.tbSig)))
	case protocol.CheckBadVRFProof:
		named = vs.Not(a.vrf)
	case protocol.CheckBindingsDiffer:
		named = vs.Or(a.path == merkletree.ErrBindingsDiffer, vs.And(a.needsPromise(), vs.Not(a.tbKey)))
	case protocol.CheckBadCommitment, protocol.CheckBadLookupIndex, protocol.CheckBadAuthPath:
		named = a.path != nil
	case protocol.CheckBadPromise:
		named = vs.And(a.needsPromise(), vs.Or(a.tb == nil, vs.Not(a.tbIndex)))
	case protocol.CheckBrokenPromise:
		named = false
	case protocol.ErrMalformedMessage:
		named = vs.Or(a.msg.Error == protocol.ErrMalformedMessage, vs.Not(a.kind))
	default:
		named = vs.And(a.isErr, err == a.msg.Error)
	}
	vs.Assert(named, "a refusal names a check that failed")
	vs.Assert(vs.Implies(a.isErr, err == a.msg.Error), "an error code of the directory is reported")
}

// Foreign: C24, answers that are no proof at all.
func Foreign() {
	s := newState(none, false)
	m := vs.Snapshot(s.cc)
	code := protocol.ErrorCode(vs.Int("code", 0, 400))
	msg := &protocol.Response{Error: code}
	switch vs.Choose("body", 4) {
	case 0:
	case 1:
		msg.DirectoryResponse = &protocol.STRHistoryRange{STR: []*protocol.DirSTR{adv.CopySTR(s.v)}}
	case 2:
		msg.DirectoryResponse = &protocol.DirectoryProof{}
	case 3:
		msg.DirectoryResponse = (*protocol.DirectoryProof)(nil)
	}
	t := protocol.RegistrationType + vs.Choose("type", 4)
	err := s.cc.HandleResponse(t, msg, s.uname, nil)
	vs.Assert(err != nil, "an answer without a proof is refused")
	isErr := vs.Or(code == protocol.ErrMalformedMessage, code == protocol.ErrDirectory, code == protocol.ErrAuditLog)
	vs.Assert(vs.Or(vs.And(isErr, err == error(code)), vs.And(vs.Not(isErr), err == protocol.ErrMalformedMessage)), "with the directory's error code or as malformed")
	vs.Assert(vs.Same(m, s.cc), "it changes nothing")
	vs.Cover("refused")
}

// Promises: C25.
func Promises() {
	s := newState(vs.Choose("held", 3), false)
	a := arbitrary(s, shape{levels: 1})
	vs.Assume(a.proven())
	proven := a.promiseOK()
	broken := a.broken(s)
	err := s.handle(a)
	cover(a, err)
	vs.Assert(vs.Implies(vs.And(proven, broken), err == protocol.CheckBrokenPromise), "a broken promise is reported")
	vs.Assert(vs.Implies(err == protocol.CheckBrokenPromise, broken), "only a broken promise is reported as one")
	vs.Assert(vs.Implies(vs.And(a.proven(), a.needsPromise(), a.tb == nil), err != nil), "an absence without the promise of the name is refused")
	vs.Assert(vs.Iff(err == nil, vs.And(proven, vs.Not(broken))), "answers that keep the promise are accepted")
	tb, ok := s.cc.TBs[s.uname]
	if err == nil {
		switch {
		case a.incl:
			vs.Assert(!ok, "a fulfilled promise is cleared")
			if s.held != nil {
				vs.Cover("fulfilled")
			}
		case a.needsPromise():
			vs.Assert(ok && bytes.Equal(tb.Index, a.ap.LookupIndex) && bytes.Equal(tb.Value, a.tb.Value) && bytes.Equal(tb.Signature, a.tb.Signature), "an accepted promise is held")
			if s.held != nil {
				vs.Cover("repeated")
			}
		default:
			vs.Assert(ok == (s.held != nil), "nothing is promised")
		}
	} else {
		vs.Assert(ok == (s.held != nil), "a refused answer changes no promise")
		if ok {
			vs.Assert(bytes.Equal(tb.Index, s.held.Index) && bytes.Equal(tb.Value, s.held.Value) && bytes.Equal(tb.Signature, s.held.Signature), "a refused answer changes no promise")
		}
		if err == protocol.CheckBrokenPromise {
			if s.when == sameEpoch {
				vs.Cover("broken at once")
			} else {
				vs.Cover("broken later")
			}
		}
	}
}

// State: C26.
func State() {
	k := vs.Choose("known", 2)
	s := newState(k, k == 1)
	a := arbitrary(s, shape{levels: 1})
	v := vs.Snapshot(s.v)
	ot, ob := vs.Snapshot(s.other), vs.Snapshot(s.cc.Bindings["someone else"])
	mt, mb := vs.Snapshot(s.cc.TBs), vs.Snapshot(s.cc.Bindings)
	mine := vs.Snapshot(a.str)
	err := s.handle(a)
	cover(a, err)
	now := s.cc.VerifiedSTR()
	vs.Assert(vs.Same(v, s.v) && vs.Same(mine, a.str), "tree roots are not modified")
	if vs.Same(v, now) {
		vs.Cover("stays")
	} else {
		vs.Assert(vs.And(vs.Same(mine, now), a.signed, a.extends), "the pinned root moves only to a signed direct successor")
		vs.Cover("moves")
	}
	if err == nil {
		vs.Assert(vs.Same(mine, now), "an accepted answer's root is pinned")
	}
	if err != nil {
		vs.Assert(vs.Same(mt, s.cc.TBs) && vs.Same(mb, s.cc.Bindings), "a refused answer changes no binding or promise")
	}
	vs.Assert(s.cc.TBs["someone else"] == s.other && vs.Same(ot, s.other) && vs.Same(ob, s.cc.Bindings["someone else"]), "other names are untouched")
	b, ok := s.cc.Bindings[s.uname]
	if err == nil {
		switch {
		case a.incl:
			vs.Assert(ok && bytes.Equal(b, a.ap.Leaf.Value), "the proven key is recorded")
			vs.Assert(a.key == nil || bytes.Equal(b, a.key), "the expected key is recorded")
		case a.needsPromise():
			vs.Assert(ok && bytes.Equal(b, a.tb.Value), "the promised key is recorded")
			vs.Assert(a.key == nil || bytes.Equal(b, a.key), "the expected key is recorded")
		default:
			vs.Assert(b == nil || s.isSet && bytes.Equal(b, s.bound), "no key is recorded for an absent name")
		}
		k, kerr := a.msg.GetKey()
		if a.incl || a.needsPromise() {
			vs.Assert(kerr == nil && bytes.Equal(k, b), "the response yields the recorded key")
		} else {
			vs.Assert(k == nil, "the response yields no key")
		}
	}
}

// Equivocation: C27.
func Equivocation() {
	s := newState(vs.Choose("held", 2), true)
	n := vs.Choose("length", size(2, 3)+1)
	var strs []*protocol.DirSTR
	for i := 0; i < n; i++ {
		tag := string(rune('0' + i))
		k := 1
		if i == n-1 {
			k = 2
		}
		if vs.Choose("copy"+tag, k) == 1 {
			strs = append(strs, adv.CopySTR(s.v))
		} else {
			strs = append(strs, adv.WireSTR(tag))
		}
	}
	code := protocol.ErrorCode(vs.Int("code", 0, 400))
	isErr := vs.Or(code == protocol.ErrMalformedMessage, code == protocol.ErrDirectory, code == protocol.ErrAuditLog)
	m, ms := vs.Snapshot(s.cc), vs.Snapshot(strs)
	err := s.cc.CheckEquivocation(&protocol.Response{Error: code, DirectoryResponse: &protocol.STRHistoryRange{STR: strs}})
	vs.Assert(vs.Same(m, s.cc) && vs.Same(ms, strs), "an equivocation check changes nothing")
	want := n > 0
	for i := 1; i < n; i++ {
		want = vs.And(want, adv.Signed(s.pk, strs[i]), adv.Extends(strs[i-1], strs[i]))
	}
	if n > 0 {
		last := strs[n-1]
		want = vs.And(want, vs.Or(adv.Equal(s.v, last), vs.And(adv.Signed(s.pk, last), adv.Extends(s.v, last))))
	}
	vs.Assert(vs.Implies(isErr, err == error(code)), "an error answer is reported")
	vs.Assert(vs.Iff(err == nil, vs.And(want, vs.Not(isErr))), "the check passes iff the signed chain ends in the pinned root or its successor")
	if err == nil {
		vs.Cover("passes " + string(rune('0'+n)))
	} else {
		vs.Cover("fails")
	}
}

// ForeignAudit: C27, answers that are no history.
func ForeignAudit() {
	s := newState(none, false)
	m := vs.Snapshot(s.cc)
	code := protocol.ErrorCode(vs.Int("code", 0, 400))
	msg := &protocol.Response{Error: code}
	switch vs.Choose("body", 5) {
	case 0:
	case 1:
		ap := adv.HostilePath("A", vs.Bytes("lookup", 32), 0, 0)
		msg.DirectoryResponse = &protocol.DirectoryProof{AP: []*merkletree.AuthenticationPath{ap}, STR: []*protocol.DirSTR{adv.CopySTR(s.v)}}
	case 2:
		msg.DirectoryResponse = &protocol.STRHistoryRange{}
	case 3:
		msg.DirectoryResponse = (*protocol.STRHistoryRange)(nil)
	case 4:
		msg.DirectoryResponse = &protocol.STRHistoryRange{STR: []*protocol.DirSTR{adv.CopySTR(s.v), nil}}
	}
	err := s.cc.CheckEquivocation(msg)
	isErr := vs.Or(code == protocol.ErrMalformedMessage, code == protocol.ErrDirectory, code == protocol.ErrAuditLog)
	vs.Assert(vs.Or(vs.And(isErr, err == error(code)), vs.And(vs.Not(isErr), err == protocol.ErrMalformedMessage)), "an answer that is no history is an error")
	vs.Assert(vs.Same(m, s.cc), "it changes nothing")
	vs.Cover("refused")
}

// oddSTR is a tree root with up to one part of an unusual kind.
func oddSTR(v *protocol.DirSTR, tag string, left *int, fresh bool) *protocol.DirSTR {
	k := 0
	if *left > 0 {
		if k = vs.Choose("odd root"+tag, 11); k > 0 {
			*left--
		}
	}
	var s *protocol.DirSTR
	if (k > 0 || fresh || vs.Thorough()) && vs.Choose("new"+tag, 2) == 1 {
		s = adv.WireSTR(tag)
	} else {
		s = adv.CopySTR(v)
	}
	switch k {
	case 1:
		return nil
	case 2:
		s.SignedTreeRoot = nil
	case 3:
		s.Policies = nil
	case 4:
		s.SignedTreeRoot, s.Policies = nil, nil
	case 5:
		s.TreeHash = nil
	case 6:
		s.Signature = nil
	case 7:
		s.Signature = vs.Bytes("sig"+tag, 65)
	case 8:
		s.PreviousSTRHash = nil
	case 9:
		s.Policies.VrfPublicKey = nil
	case 10:
		s.Policies.VrfPublicKey = vs.Bytes("vrf"+tag, 31)
	}
	return s
}

// oddAP is a path with up to one part of an unusual kind.
func oddAP(tag string, left *int) *merkletree.AuthenticationPath {
	n := 0
	if *left > 0 {
		n = 1
	}
	shape := 0
	if *left > 0 {
		shape = vs.Choose("odd path"+tag, 8)
	}
	if shape > 0 {
		n, *left = 0, *left-1
	}
	lookup := vs.Bytes("lookup"+tag, 32)
	ap := adv.HostilePath(tag, lookup, 1, n)
	ap.VrfProof = vs.Bytes("proof"+tag, 96)
	switch shape {
	case 1:
		return nil
	case 2:
		ap.Leaf = nil
	case 3:
		ap.LookupIndex = nil
	case 4:
		ap.LookupIndex = ap.LookupIndex[:31]
	case 5:
		ap.VrfProof = nil
	case 6:
		ap.PrunedTree = nil
	case 7:
		ap = &merkletree.AuthenticationPath{}
	}
	return ap
}

func oddTB(tag string, left *int) *protocol.TemporaryBinding {
	n := 2
	if *left > 0 {
		n = 6
	}
	k := vs.Choose("odd promise"+tag, n)
	if k > 1 {
		*left--
	}
	tb := &protocol.TemporaryBinding{Index: vs.Bytes("tbindex"+tag, 32), Value: vs.Bytes("tbvalue"+tag, 1), Signature: vs.Bytes("tbsig"+tag, 64)}
	switch k {
	case 1:
		return nil
	case 2:
		tb.Index = nil
	case 3:
		tb.Value = nil
	case 4:
		tb.Signature = nil
	case 5:
		return &protocol.TemporaryBinding{}
	}
	return tb
}

// Hostile: C29, a client survives every registration or lookup answer.
func Hostile() {
	held := vs.Choose("held", size(2, 3))
	s := newState(held, false)
	left := 1
	code := protocol.ErrorCode(vs.Int("code", 0, 400))
	msg := &protocol.Response{Error: code}
	switch vs.Choose("body", 3) {
	case 0:
		p := &protocol.DirectoryProof{}
		msg.DirectoryResponse = p
		np, ns := 1, 1
		if left > 0 {
			switch k := vs.Choose("counts", 5); k {
			case 1, 2, 3, 4:
				np, ns = []int{0, 1, 2, 1}[k-1], []int{1, 0, 1, 2}[k-1]
				left--
			}
		}
		for i := 0; i < ns; i++ {
			p.STR = append(p.STR, oddSTR(s.v, string(rune('0'+i)), &left, false))
		}
		for i := 0; i < np; i++ {
			p.AP = append(p.AP, oddAP(string(rune('A'+i)), &left))
		}
		p.TB = oddTB("T", &left)
	case 1:
		msg.DirectoryResponse = (*protocol.DirectoryProof)(nil)
	case 2:
	}
	var key []byte
	if !vs.Thorough() && held == 1 || vs.Thorough() && vs.Choose("known key", 2) == 1 {
		key = vs.Bytes("key", 1)
	}
	t := protocol.KeyLookupType
	if vs.Choose("registration", 2) == 1 {
		t = protocol.RegistrationType
	}
	err := s.cc.HandleResponse(t, msg, s.uname, key)
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
	msg.GetKey()
	vs.Assert(s.cc.VerifiedSTR() != nil && s.cc.VerifiedSTR().SignedTreeRoot != nil && s.cc.VerifiedSTR().Policies != nil, "the pinned root stays whole")
}

// HostileHistory: C29, a client and an auditor survive every range of roots.
func HostileHistory() {
	s := newState(none, false)
	left := size(1, 2)
	code := protocol.ErrorCode(vs.Int("code", 0, 400))
	msg := &protocol.Response{Error: code}
	switch vs.Choose("body", 5) {
	case 0:
		h := &protocol.STRHistoryRange{}
		msg.DirectoryResponse = h
		n := vs.Choose("length", 3)
		for i := 0; i < n; i++ {
			h.STR = append(h.STR, oddSTR(s.v, string(rune('0'+i)), &left, true))
		}
	case 1:
		msg.DirectoryResponse = (*protocol.STRHistoryRange)(nil)
	case 2:
		msg.DirectoryResponse = (*protocol.DirectoryProof)(nil)
	case 3:
		p := &protocol.DirectoryProof{TB: oddTB("T", &left)}
		msg.DirectoryResponse = p
		p.STR = append(p.STR, oddSTR(s.v, "S", &left, true))
		p.AP = append(p.AP, oddAP("A", &left))
	}
	var err error
	switch vs.Choose("receiver", 4) {
	case 0:
		err = s.cc.CheckEquivocation(msg)
	case 1: // an audit log
		vs.Assume(s.v.Epoch == 0)
		l := auditlog.New()
		vs.Assume(l.InitHistory("a", s.pk, []*protocol.DirSTR{s.v}) == nil)
		err = l[auditor.ComputeDirectoryIdentity(s.v)].Audit(msg)
	case 2: // an auditor
		h, _ := msg.DirectoryResponse.(*protocol.STRHistoryRange)
		if h == nil {
			h = &protocol.STRHistoryRange{}
		}
		err = auditor.New(s.pk, s.v).AuditDirectory(h.STR)
	case 3:
		_, err = msg.GetKey()
	}
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}
