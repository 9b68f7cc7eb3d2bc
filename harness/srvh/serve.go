package srvh

import (
	"errors"
	"runtime"

	"github.com/coniks-sys/coniks-go/application"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/net"
	"github.com/coniks-sys/coniks-go/protocol"
)

func size(q, t int) int {
	if vs.Thorough() {
		return t
	}
	return q
}

var types = []int{protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType, protocol.AuditType, protocol.STRType, 77, -1}

func reader(t int) bool {
	return t == protocol.KeyLookupType || t == protocol.KeyLookupInEpochType || t == protocol.MonitoringType
}

var errNet = errors.New("connection reset")

func newBase(perms map[*application.ServerAddress]map[int]bool) *application.ServerBase {
	return application.NewServerBase(&application.CommonConfig{
		Path: "/etc/coniks/config.toml", Encoding: "toml",
		Logger: &application.LoggerConfig{Environment: "development"},
	}, "Listen", perms)
}

func address(i int) *application.ServerAddress {
	if i == 0 {
		return &application.ServerAddress{Address: "unix:///tmp/a.sock"}
	}
	return &application.ServerAddress{Address: "tcp://127.0.0.1:3000", TLSCertPath: "c", TLSKeyPath: "k"}
}

// probe reports whether the base is locked at all and locked exclusively.
func probe(sb *application.ServerBase) (held, exclusive bool) {
	if sb.TryLock() {
		sb.Unlock()
		return false, false
	}
	if sb.TryRLock() {
		sb.RUnlock()
		return true, false
	}
	return true, true
}

// wire encodes a request of type t.
func wire(t int) []byte {
	var r interface{}
	switch t {
	case protocol.RegistrationType:
		r = &protocol.RegistrationRequest{Username: "alice", Key: []byte("key")}
	case protocol.KeyLookupType:
		r = &protocol.KeyLookupRequest{Username: "alice"}
	case protocol.KeyLookupInEpochType:
		r = &protocol.KeyLookupInEpochRequest{Username: "alice", Epoch: 1}
	case protocol.MonitoringType:
		r = &protocol.MonitoringRequest{Username: "alice", StartEpoch: 0, EndEpoch: 1}
	default:
		r = &protocol.AuditingRequest{}
	}
	b, err := application.MarshalRequest(t, r)
	if err != nil {
		panic(err)
	}
	return b
}

// answer decodes what was written: exactly one response.
func answer(out []byte) *protocol.Response {
	return application.UnmarshalResponse(protocol.KeyLookupType, out)
}

var codes = []protocol.ErrorCode{protocol.ErrDirectory, protocol.ErrMalformedMessage, protocol.ErrAuditLog}

// Serve: C31/C32, one connection to a generic server: what reaches the
// handler, under which lock, and what is answered.
func Serve() {
	ai := vs.Choose("address", 2)
	addr, other := address(ai), address(1-ai)
	perms := map[*application.ServerAddress]map[int]bool{addr: {}, other: {}}
	ti := vs.Choose("type", len(types))
	t := types[ti]
	allowed := false
	switch vs.Choose("permission", 3) {
	case 0: // listed
		allowed = vs.Bool("allowed")
		perms[addr][t] = allowed
	case 1: // not listed
	case 2: // no permissions at all for this address
		delete(perms, addr)
	}
	perms[other][t] = vs.Bool("elsewhere")
	for _, u := range types {
		if u != t && perms[addr] != nil {
			perms[addr][u] = vs.Bool("others")
		}
	}
	sb := newBase(perms)

	p := &net.Pipe{In: wire(t)}
	fault := vs.Choose("fault", 4)
	switch fault {
	case 1:
		p.ReadErr, p.ReadAt = errNet, vs.Choose("after", 2)*7
	case 2:
		p.WriteErr, p.WriteAt = errNet, vs.Choose("after", 2)*5
	case 3: // not a request
		p.In = [][]byte{nil, []byte("{"), []byte("7"), []byte("{\"type\":0"), p.In[:len(p.In)-1]}[vs.Choose("junk", 5)]
	}

	calls := 0
	cur := p
	code := codes[vs.Choose("code", len(codes))]
	reply := protocol.NewErrorResponse(code)
	handler := func(req *protocol.Request) *protocol.Response {
		calls++
		held, exclusive := probe(sb)
		vs.Assert(held, "the directory is locked while a request is handled")
		vs.Assert(vs.Implies(!reader(t), exclusive), "exclusively if the request can change it")
		vs.Assert(req != nil && req.Type == t, "the handler gets the request that was sent")
		vs.Assert(cur.Writes == 0, "nothing is answered before the request is handled")
		return reply
	}
	sb.ListenAndHandle(addr, handler)
	vs.Assert(len(net.Listeners) == 1, "one listener")
	l := net.Listeners[0]
	l.Conns <- p
	vs.Quiesce()
	vs.Assert(p.Closes >= 1, "the connection is closed")
	held, _ := probe(sb)
	vs.Assert(!held, "the directory is unlocked after serving")
	switch {
	case fault == 1:
		vs.Assert(calls == 0 && p.Writes == 0, "a request that cannot be read is not answered")
		vs.Cover("unreadable")
	case fault == 3:
		vs.Assert(calls == 0, "an undecodable request does not reach the directory")
		vs.Assert(p.Writes == 1 && answer(p.Out).Error == protocol.ErrMalformedMessage, "and is answered as malformed")
		vs.Cover("junk")
	case !allowed:
		vs.Assert(calls == 0, "a request that is not permitted does not reach the directory")
		vs.Assert(p.Writes == 1, "one answer")
		vs.Assert(fault == 2 || answer(p.Out).Error == protocol.ErrMalformedMessage, "a malformed-message error")
		vs.Cover("refused")
	default:
		vs.Assert(calls == 1, "a permitted request is handled once")
		vs.Assert(p.Writes == 1, "one answer")
		vs.Assert(fault == 2 || answer(p.Out).Error == code, "the handler's")
		vs.Cover("served")
	}
	// the server goes on serving
	q := &net.Pipe{In: wire(t)}
	cur = q
	l.Conns <- q
	vs.Quiesce()
	vs.Assert(q.Writes == 1 && q.Closes >= 1, "the next connection is served")
	sb.Shutdown()
	vs.Assert(l.Closed, "shutdown closes the listener")
	held, _ = probe(sb)
	vs.Assert(!held, "and leaves nothing locked")
}

// Exclusion: C32, requests, epoch updates and reloads never overlap.
func Exclusion() {
	addr := address(0)
	sb := newBase(map[*application.ServerAddress]map[int]bool{addr: {0: true, 1: true, 2: true, 3: true}})
	writers, readers := 0, 0
	enter := func(w bool) {
		vs.Assert(writers == 0 && (!w || readers == 0), "changes are exclusive")
		if w {
			writers++
		} else {
			readers++
		}
		runtime.Gosched()
		if w {
			writers--
		} else {
			readers--
		}
	}
	served := 0
	sb.ListenAndHandle(addr, func(req *protocol.Request) *protocol.Response {
		enter(!reader(req.Type))
		served++
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	})
	vs.Quiesce()
	vs.Preempt(size(1, 2))
	n := 2
	var ps []*net.Pipe
	for i := 0; i < n; i++ {
		ps = append(ps, &net.Pipe{In: wire(types[vs.Choose("type", 2)])})
	}
	updates := 0
	switch vs.Choose("third", 3) {
	case 0:
	case 1:
		timer := application.NewEpochTimer(protocol.Timestamp(60))
		sb.RunInBackground(func() { sb.EpochUpdate(timer, func() { enter(true); updates++ }) })
		fire(0)
	case 2:
		sb.RunInBackground(func() { sb.HotReload(func() { enter(true); updates++ }) })
		reload()
	}
	for _, p := range ps {
		net.Listeners[0].Conns <- p
	}
	vs.Quiesce()
	vs.Assert(served == n, "every request is handled")
	for _, p := range ps {
		vs.Assert(p.Writes == 1 && p.Closes >= 1, "and answered once")
		vs.Assert(answer(p.Out).Error == protocol.ErrDirectory, "with a response")
	}
	held, _ := probe(sb)
	vs.Assert(!held, "unlocked at the end")
	vs.Cover("done")
	sb.Shutdown()
}
