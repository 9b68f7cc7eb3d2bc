package wireh

import (
	"bytes"
	"encoding/json"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/internal/verifh/adv"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/ed25519"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
)

func size(q, t int) int {
	if vs.Thorough() {
		return t
	}
	return q
}

// text is a symbolic ASCII string.
func text(name string, n int) string {
	b := vs.Bytes(name, n)
	for _, x := range b {
		vs.Assume(x < 0x80)
	}
	return string(b)
}

// data is nil, empty or symbolic bytes.
func data(name string) []byte {
	switch vs.Choose(name, 3) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	return vs.Bytes(name, 3)
}

// Requests: C30, requests arrive as they were sent.
func Requests() {
	switch vs.Choose("type", 4) {
	case 0:
		r := &protocol.RegistrationRequest{Username: text("name", 3), Key: data("key"), AllowUnsignedKeychange: vs.Bool("unsigned"), AllowPublicLookup: vs.Bool("public")}
		q := send(protocol.RegistrationType, r)
		g, ok := q.Request.(*protocol.RegistrationRequest)
		vs.Assert(ok && g != nil, "a registration arrives as one")
		vs.Assert(vs.And(vs.StrEq(g.Username, r.Username), bytes.Equal(g.Key, r.Key),
			g.AllowUnsignedKeychange == r.AllowUnsignedKeychange, g.AllowPublicLookup == r.AllowPublicLookup), "with its content")
		vs.Cover("registration")
	case 1:
		r := &protocol.KeyLookupRequest{Username: text("name", 3)}
		q := send(protocol.KeyLookupType, r)
		g, ok := q.Request.(*protocol.KeyLookupRequest)
		vs.Assert(ok && g != nil, "a lookup arrives as one")
		vs.Assert(vs.StrEq(g.Username, r.Username), "with its content")
		vs.Cover("lookup")
	case 2:
		r := &protocol.KeyLookupInEpochRequest{Username: text("name", 3), Epoch: vs.U64("epoch")}
		q := send(protocol.KeyLookupInEpochType, r)
		g, ok := q.Request.(*protocol.KeyLookupInEpochRequest)
		vs.Assert(ok && g != nil, "an epoch lookup arrives as one")
		vs.Assert(vs.And(vs.StrEq(g.Username, r.Username), g.Epoch == r.Epoch), "with its content")
		vs.Cover("epoch lookup")
	case 3:
		r := &protocol.MonitoringRequest{Username: text("name", 3), StartEpoch: vs.U64("start"), EndEpoch: vs.U64("end")}
		q := send(protocol.MonitoringType, r)
		g, ok := q.Request.(*protocol.MonitoringRequest)
		vs.Assert(ok && g != nil, "monitoring arrives as such")
		vs.Assert(vs.And(vs.StrEq(g.Username, r.Username), g.StartEpoch == r.StartEpoch, g.EndEpoch == r.EndEpoch), "with its content")
		vs.Cover("monitoring")
	}
}

func send(t int, r interface{}) *protocol.Request {
	m := vs.Snapshot(r)
	b, err := application.MarshalRequest(t, r)
	vs.Assert(err == nil, "a request can be encoded")
	q, err := application.UnmarshalRequest(b)
	vs.Assert(err == nil && q != nil, "an encoded request can be decoded")
	vs.Assert(q.Type == t, "a request keeps its type")
	vs.Assert(vs.Same(m, r), "encoding does not change a request")
	return q
}

func sameSTRs(a, b []*protocol.DirSTR) {
	vs.Assert(len(a) == len(b), "all tree roots arrive")
	for i := range a {
		vs.Assert(a[i].IsComplete() && b[i].IsComplete(), "whole tree roots arrive")
		vs.Assert(adv.Equal(a[i], b[i]), "tree roots arrive unmodified")
		vs.Assert(bytes.Equal(a[i].Serialize(), b[i].Serialize()), "with the same signed content")
	}
}

func samePath(a, b *merkletree.AuthenticationPath) {
	vs.Assert(a != nil && b != nil && b.Leaf != nil, "a path arrives")
	vs.Assert(vs.And(bytes.Equal(a.TreeNonce, b.TreeNonce), bytes.Equal(a.LookupIndex, b.LookupIndex), bytes.Equal(a.VrfProof, b.VrfProof)), "path fields arrive unmodified")
	vs.Assert(len(a.PrunedTree) == len(b.PrunedTree), "all siblings arrive")
	for i := range a.PrunedTree {
		vs.Assert(bytes.Equal(a.PrunedTree[i][:], b.PrunedTree[i][:]), "siblings arrive unmodified")
	}
	x, y := a.Leaf, b.Leaf
	vs.Assert(vs.And(x.Level == y.Level, x.IsEmpty == y.IsEmpty, bytes.Equal(x.Index, y.Index), bytes.Equal(x.Value, y.Value)), "the leaf arrives unmodified")
	vs.Assert((x.Value == nil) == (y.Value == nil), "a suppressed value stays suppressed")
	vs.Assert((x.Commitment == nil) == (y.Commitment == nil), "the commitment arrives")
	if x.Commitment != nil {
		vs.Assert(vs.And(bytes.Equal(x.Commitment.Value, y.Commitment.Value), bytes.Equal(x.Commitment.Salt, y.Commitment.Salt)), "the commitment arrives unmodified")
	}
}

// path is a path as a directory sends it.
func path(tag string, levels int) *merkletree.AuthenticationPath {
	n := vs.Choose("level"+tag, levels+1)
	ap := &merkletree.AuthenticationPath{TreeNonce: vs.Bytes("nonce"+tag, 32), LookupIndex: vs.Bytes("lookup"+tag, 32), VrfProof: vs.Bytes("proof"+tag, 96)}
	for i := 0; i < n; i++ {
		var h [crypto.HashSizeByte]byte
		copy(h[:], vs.Bytes("sibling"+tag, crypto.HashSizeByte))
		ap.PrunedTree = append(ap.PrunedTree, h)
	}
	ap.Leaf = &merkletree.ProofNode{Level: uint32(n)}
	switch vs.Choose("leaf"+tag, 3) {
	case 0:
		ap.Leaf.IsEmpty = true
		ap.Leaf.Index = vs.Bytes("index"+tag, (n+7)/8)
	case 1: // another name's leaf
		ap.Leaf.Index = vs.Bytes("index"+tag, 32)
		ap.Leaf.Commitment = &crypto.Commit{Value: vs.Bytes("commit"+tag, 32)}
	case 2:
		ap.Leaf.Index = append([]byte(nil), ap.LookupIndex...)
		ap.Leaf.Value = vs.Bytes("value"+tag, 2)
		ap.Leaf.Commitment = &crypto.Commit{Value: vs.Bytes("commit"+tag, 32), Salt: vs.Bytes("salt"+tag, 32)}
	}
	return ap
}

var types = []int{protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType}

func receive(t int, r *protocol.Response) *protocol.Response {
	m := vs.Snapshot(r)
	b, err := application.MarshalResponse(r)
	vs.Assert(err == nil, "a response can be encoded")
	vs.Assert(vs.Same(m, r), "encoding does not change a response")
	g := application.UnmarshalResponse(t, b)
	vs.Assert(g != nil, "a response is decoded")
	return g
}

// Proofs: C30, proofs arrive as they were sent.
func Proofs() {
	p := &protocol.DirectoryProof{}
	n, k := 1, 1
	switch vs.Choose("shape", size(2, 3)) {
	case 1:
		n, k = 2, 1
	case 2:
		n, k = 2, 2
	}
	pk := sign.PublicKey(vs.Bytes("pk", 32))
	for i := 0; i < k; i++ {
		p.AP = append(p.AP, path(string(rune('A'+i)), size(1, 2)))
	}
	for i := 0; i < n; i++ {
		s := adv.WireSTR(string(rune('0' + i)))
		versions(s)
		s.Signature = ed25519.Sig(pk, adv.Encoding(s))
		p.STR = append(p.STR, s)
	}
	if vs.Choose("promise", 2) == 1 {
		p.TB = &protocol.TemporaryBinding{Index: vs.Bytes("tbindex", 32), Value: data("tbvalue"), Signature: vs.Bytes("tbsig", 64)}
	}
	code := protocol.ErrorCode(vs.Int("code", 0, 400))
	t := types[vs.Choose("type", len(types))]
	g := receive(t, &protocol.Response{Error: code, DirectoryResponse: p})
	q, ok := g.DirectoryResponse.(*protocol.DirectoryProof)
	vs.Assert(ok && q != nil && g.Error == code, "a proof arrives as one, with its result")
	sameSTRs(p.STR, q.STR)
	for _, s := range q.STR {
		vs.Assert(pk.Verify(s.Serialize(), s.Signature), "signatures still verify")
	}
	vs.Assert(len(q.AP) == len(p.AP), "all paths arrive")
	for i := range p.AP {
		samePath(p.AP[i], q.AP[i])
		vs.Assert(p.AP[i].ProofType() == q.AP[i].ProofType(), "a path keeps its kind")
	}
	vs.Assert((p.TB == nil) == (q.TB == nil), "the promise arrives")
	if p.TB != nil {
		vs.Assert(vs.And(bytes.Equal(p.TB.Index, q.TB.Index), bytes.Equal(p.TB.Value, q.TB.Value), bytes.Equal(p.TB.Signature, q.TB.Signature)), "the promise arrives unmodified")
		vs.Cover("promise")
	}
	vs.Cover("proof")
}

// versions: names of algorithms are ASCII.
func versions(s *protocol.DirSTR) {
	for _, x := range []byte(s.Policies.Version + s.Policies.HashID) {
		vs.Assume(x < 0x80)
	}
}

// Histories: C30, histories arrive as they were sent.
func Histories() {
	n := vs.Choose("length", size(3, 4))
	h := &protocol.STRHistoryRange{}
	pk := sign.PublicKey(vs.Bytes("pk", 32))
	for i := 0; i < n; i++ {
		s := adv.WireSTR(string(rune('0' + i)))
		versions(s)
		s.Signature = ed25519.Sig(pk, adv.Encoding(s))
		h.STR = append(h.STR, s)
	}
	code := protocol.ErrorCode(vs.Int("code", 0, 400))
	g := receive(protocol.STRType, &protocol.Response{Error: code, DirectoryResponse: h})
	q, ok := g.DirectoryResponse.(*protocol.STRHistoryRange)
	vs.Assert(ok && q != nil && g.Error == code, "a history arrives as one, with its result")
	sameSTRs(h.STR, q.STR)
	for _, s := range q.STR {
		vs.Assert(pk.Verify(s.Serialize(), s.Signature), "signatures still verify")
	}
	vs.Cover("history")
}

// Errors: C30, an answer without a body is its error code.
func Errors() {
	code := protocol.ErrorCode(vs.Int("code", 0, 400))
	isErr := vs.Or(code == protocol.ErrMalformedMessage, code == protocol.ErrDirectory, code == protocol.ErrAuditLog)
	t := append(append([]int(nil), types...), protocol.STRType)[vs.Choose("type", 5)]
	g := receive(t, protocol.NewErrorResponse(code))
	vs.Assert(g.DirectoryResponse == nil, "no body appears")
	vs.Assert(vs.Implies(isErr, g.Error == code), "an error code arrives")
	vs.Assert(vs.Implies(vs.Not(isErr), g.Error == protocol.ErrMalformedMessage), "an answer without body and error is malformed")
	vs.Assert(g.Validate() != nil, "it is no valid answer")
	vs.Cover("error")
}

// junk is any JSON value of another kind.
func junk(name string, kinds int) interface{} {
	switch vs.Choose(name, kinds) {
	case 0:
		return nil
	case 1:
		return int64(vs.U64(name))
	case 2:
		return "*not base64*"
	case 3:
		return []interface{}{}
	case 4:
		return map[string]interface{}{}
	case 5:
		return true
	case 6:
		return 1.5
	case 7:
		return []interface{}{int64(300), nil}
	}
	return map[string]interface{}{"STR": int64(1), "AP": int64(1), "TB": "x", "Username": int64(1), "Leaf": "x"}
}

const kinds = 9

func encode(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// BadResponses: C30, C29: undecodable answers are malformed.
func BadResponses() {
	t := append(append([]int(nil), types...), protocol.STRType)[vs.Choose("type", 5)]
	doc := map[string]interface{}{}
	bad := false
	switch vs.Choose("what", 6) {
	case 0:
		g := application.UnmarshalResponse(t, []byte([]string{"", "{", "nul", "{\"Error\":100,}", "null", "[]", "7", "\x00"}[vs.Choose("text", 8)]))
		vs.Assert(g.Error == protocol.ErrMalformedMessage && g.DirectoryResponse == nil, "text that is no answer is malformed")
		vs.Cover("text")
		return
	case 1: // a result that is no number
		k := vs.Choose("code kind", 4)
		doc["Error"] = []interface{}{"100", true, []interface{}{}, map[string]interface{}{}}[k]
		doc["DirectoryResponse"] = map[string]interface{}{}
		bad = true
	case 2: // a body of another kind
		doc["Error"] = int64(vs.U64("code"))
		b := junk("body", 8)
		doc["DirectoryResponse"] = b
		_, isMap := b.(map[string]interface{})
		bad = b != nil && !isMap
	case 3: // a part of another kind
		doc["Error"] = int64(100)
		f := []string{"STR", "AP", "TB"}[vs.Choose("field", 3)]
		b := junk("part", kinds)
		doc["DirectoryResponse"] = map[string]interface{}{f: b}
		_, isList := b.([]interface{})
		_, isMap := b.(map[string]interface{})
		known := f == "STR" || t != protocol.STRType
		bad = known && b != nil && (f == "TB" && !isMap || f != "TB" && !isList)
	case 4: // an element of another kind
		doc["Error"] = int64(100)
		f := []string{"STR", "AP"}[vs.Choose("field", 2)]
		b := junk("element", kinds)
		doc["DirectoryResponse"] = map[string]interface{}{f: []interface{}{b}}
		_, isMap := b.(map[string]interface{})
		bad = (f == "STR" || t != protocol.STRType) && b != nil && !isMap
	case 5: // a field of a root of another kind
		doc["Error"] = int64(100)
		f := []string{"TreeHash", "Epoch", "PreviousEpoch", "PreviousSTRHash", "Signature", "Policies"}[vs.Choose("root field", 6)]
		b := junk("value", kinds)
		doc["DirectoryResponse"] = map[string]interface{}{"STR": []interface{}{map[string]interface{}{f: b}}}
	}
	g := application.UnmarshalResponse(t, encode(doc))
	vs.Assert(g != nil, "there is always a result")
	if bad {
		vs.Assert(g.Error == protocol.ErrMalformedMessage && g.DirectoryResponse == nil, "an answer of the wrong kind is malformed")
		vs.Cover("bad")
	}
	vs.Assert(g.Validate() != nil, "it is no valid answer")
	vs.Cover("refused")
}

// BadRequests: C30, undecodable requests are errors.
func BadRequests() {
	switch vs.Choose("what", 4) {
	case 0:
		_, err := application.UnmarshalRequest([]byte([]string{"", "{", "nul", "{\"Type\":0,}", "{}", "[]", "7", "{\"Type\":1}", "{\"Type\":2,\"Request\":null}", "\x00"}[vs.Choose("text", 10)]))
		vs.Assert(err != nil, "text that is no request is an error")
		vs.Cover("text")
	case 1: // a type that is no number
		doc := map[string]interface{}{"Type": junk("type", 7), "Request": map[string]interface{}{"Username": "a"}}
		_, num := doc["Type"].(int64)
		if num {
			vs.Assume(false)
		}
		q, err := application.UnmarshalRequest(encode(doc))
		vs.Assert(err != nil || doc["Type"] == nil && q.Type == 0, "a request needs a numeric type")
		vs.Cover("bad type")
	case 2: // a body of another kind
		k := vs.Choose("body", 5)
		b := []interface{}{int64(5), "x", []interface{}{}, true, 1.5}[k]
		q, err := application.UnmarshalRequest(encode(map[string]interface{}{"Type": types[vs.Choose("type", 4)], "Request": b}))
		vs.Assert(err != nil && q == nil, "a request needs a body of its type")
		vs.Cover("bad body")
	case 3: // a field of another kind
		i := vs.Choose("type", 4)
		f := []string{"Username", "Key", "AllowPublicLookup", "Epoch", "StartEpoch", "EndEpoch"}[vs.Choose("field", 6)]
		b := junk("value", kinds)
		q, err := application.UnmarshalRequest(encode(map[string]interface{}{"Type": types[i], "Request": map[string]interface{}{f: b}}))
		if err == nil {
			ok := false
			switch r := q.Request.(type) {
			case *protocol.RegistrationRequest:
				ok = i == 0 && r != nil
			case *protocol.KeyLookupRequest:
				ok = i == 1 && r != nil
			case *protocol.KeyLookupInEpochRequest:
				ok = i == 2 && r != nil
			case *protocol.MonitoringRequest:
				ok = i == 3 && r != nil
			}
			vs.Assert(ok && q.Type == types[i], "a decoded request is of its type")
			_, str := b.(string)
			if f == "Username" {
				vs.Assert(b == nil || str, "a name is a string")
			}
			vs.Cover("decoded")
		} else {
			vs.Cover("bad field")
		}
	}
}

// Unknown: C30, request types without a meaning never decode to a known request.
func Unknown() {
	t := int(int64(vs.U64("type")))
	for _, k := range types {
		vs.Assume(t != k)
	}
	q, err := application.UnmarshalRequest(encode(map[string]interface{}{"Type": int64(t), "Request": junk("body", kinds)}))
	if err == nil {
		vs.Assert(q.Type == t, "a request keeps its type")
		switch q.Request.(type) {
		case *protocol.RegistrationRequest, *protocol.KeyLookupRequest, *protocol.KeyLookupInEpochRequest, *protocol.MonitoringRequest:
			vs.Fail("an unknown type becomes a known request")
		}
		vs.Cover("generic")
	} else {
		vs.Cover("error")
	}
}
