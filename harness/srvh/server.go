package srvh

import (
	"bytes"
	"errors"
	rtime "time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/internal/verifh/adv"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/ed25519"
	"github.com/coniks-sys/coniks-go/internal/verifsym/net"
	"github.com/coniks-sys/coniks-go/internal/verifsym/os"
	"github.com/coniks-sys/coniks-go/internal/verifsym/time"
	"github.com/coniks-sys/coniks-go/internal/verifsym/toml"
	"github.com/coniks-sys/coniks-go/protocol"
)

type world struct {
	s     *server.ConiksServer
	conf  *server.Config
	pk    sign.PublicKey
	vpk   vrf.PublicKey
	sk    sign.PrivateKey
	vk    vrf.PrivateKey
	addrs []*server.Address
}

// deadline is an epoch deadline in seconds that a timer can hold.
func deadline(name string) protocol.Timestamp {
	d := vs.U64(name)
	vs.Assume(d < 1<<33)
	return protocol.Timestamp(d)
}

func start(d protocol.Timestamp, addrs []*server.Address) *world {
	w := &world{addrs: addrs}
	var err error
	if w.sk, err = sign.GenerateKey(nil); err != nil {
		panic(err)
	}
	if w.vk, err = vrf.GenerateKey(nil); err != nil {
		panic(err)
	}
	w.pk, _ = w.sk.Public()
	w.vpk, _ = w.vk.Public()
	w.conf = &server.Config{
		CommonConfig: &application.CommonConfig{
			Path: "/etc/coniks/config.toml", Encoding: "toml",
			Logger: &application.LoggerConfig{Environment: "development"},
		},
		LoadedHistoryLength: 4,
		InitSTRPath:         "init.str",
		Addresses:           addrs,
		Policies:            server.NewPolicies(d, "vrf.priv", "sign.priv", w.vk, w.sk),
	}
	vs.OneOrder(true)
	w.s = server.NewConiksServer(w.conf)
	return w
}

// spread assumes that the indices of the names differ in their first bits:
// the depth of trees is the subject of other checks.
func (w *world) spread(names ...string) {
	var ix [][]byte
	for _, n := range names {
		ix = append(ix, w.vk.Compute([]byte(n)))
	}
	for i := range ix {
		for j := range ix[:i] {
			d := false
			for k := uint(0); k < 2; k++ {
				d = vs.Or(d, (ix[i][0]^ix[j][0])&(0x80>>k) != 0)
			}
			vs.Assume(d)
		}
	}
}

// latest is the tree root the server answers with.
func (w *world) latest() *protocol.DirSTR {
	r := w.s.HandleRequests(&protocol.Request{Type: protocol.KeyLookupType, Request: &protocol.KeyLookupRequest{Username: "nobody"}})
	df, ok := r.DirectoryResponse.(*protocol.DirectoryProof)
	vs.Assert(ok && len(df.STR) > 0, "the server answers lookups")
	return df.STR[len(df.STR)-1]
}

func local(reg bool) *server.Address {
	return &server.Address{ServerAddress: address(0), AllowRegistration: reg}
}

func public(reg bool) *server.Address {
	return &server.Address{ServerAddress: address(1), AllowRegistration: reg}
}

func (w *world) send(l int, t int, r interface{}) *net.Pipe {
	b, err := application.MarshalRequest(t, r)
	if err != nil {
		panic(err)
	}
	p := &net.Pipe{In: b}
	net.Listeners[l].Conns <- p
	return p
}

// reply decodes an answer to a request of type t.
func reply(t int, p *net.Pipe) *protocol.Response {
	vs.Assert(p.Writes == 1 && p.Closes >= 1, "one answer, then the connection is closed")
	return application.UnmarshalResponse(t, p.Out)
}

// Permissions: C31, what each address of a server permits.
func Permissions() {
	regs := []bool{vs.Choose("registration at 0", 2) == 1, vs.Choose("registration at 1", 2) == 1}
	addrs := []*server.Address{local(regs[0]), public(regs[1])}
	n := 1 + vs.Choose("addresses", 2)
	w := start(60, addrs[:n])
	w.s.Run(addrs[:n])
	vs.Assert(len(net.Listeners) == n, "a listener for every address")
	at := 0
	if n > 1 {
		at = vs.Choose("at", 2)
	}
	signs := ed25519.Signed
	switch vs.Choose("type", 5) {
	case 0:
		p := w.send(at, protocol.RegistrationType, &protocol.RegistrationRequest{Username: "alice", Key: []byte("key")})
		vs.Quiesce()
		r := reply(protocol.RegistrationType, p)
		if regs[at] {
			vs.Assert(r.Error == protocol.ReqSuccess, "a registration is accepted where it is enabled")
			vs.Cover("registered")
		} else {
			vs.Assert(r.Error == protocol.ErrMalformedMessage && r.DirectoryResponse == nil, "and refused where it is not")
			vs.Assert(ed25519.Signed == signs, "without reaching the directory")
			fire(0)
			vs.Quiesce()
			q := w.s.HandleRequests(&protocol.Request{Type: protocol.KeyLookupType, Request: &protocol.KeyLookupRequest{Username: "alice"}})
			vs.Assert(q.Error == protocol.ReqNameNotFound, "the name is not registered")
			vs.Cover("refused")
		}
	case 1:
		p := w.send(at, protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: "alice"})
		vs.Quiesce()
		r := reply(protocol.KeyLookupType, p)
		vs.Assert(r.Error == protocol.ReqNameNotFound, "lookups are answered everywhere")
		vs.Cover("lookup")
	case 2:
		p := w.send(at, protocol.KeyLookupInEpochType, &protocol.KeyLookupInEpochRequest{Username: "alice", Epoch: 0})
		vs.Quiesce()
		r := reply(protocol.KeyLookupInEpochType, p)
		vs.Assert(r.Error == protocol.ReqNameNotFound, "epoch lookups are answered everywhere")
		vs.Cover("epoch lookup")
	case 3:
		p := w.send(at, protocol.MonitoringType, &protocol.MonitoringRequest{Username: "alice", StartEpoch: 0, EndEpoch: 0})
		vs.Quiesce()
		r := reply(protocol.MonitoringType, p)
		vs.Assert(r.Error == protocol.ReqSuccess, "monitoring is answered everywhere")
		vs.Cover("monitoring")
	case 4:
		t := []int{protocol.AuditType, protocol.STRType, 99}[vs.Choose("other", 3)]
		p := w.send(at, t, &protocol.AuditingRequest{})
		vs.Quiesce()
		r := reply(protocol.KeyLookupType, p)
		vs.Assert(r.Error == protocol.ErrMalformedMessage, "nothing else is served")
		vs.Cover("other")
	}
	w.s.Shutdown()
}

// Dispatch: C31, each type goes to its own operation, a body of another type
// to none.
func Dispatch() {
	w := start(60, []*server.Address{local(true)})
	w.spread("alice", "bob")
	bodies := []interface{}{
		&protocol.RegistrationRequest{Username: "bob", Key: []byte("k")},
		&protocol.KeyLookupRequest{Username: "alice"},
		&protocol.KeyLookupInEpochRequest{Username: "alice", Epoch: 0},
		&protocol.MonitoringRequest{Username: "alice", StartEpoch: 0, EndEpoch: 1},
		nil,
		map[string]interface{}{"Username": "alice"},
		"alice",
	}
	// alice is registered in epoch 1
	r := w.s.HandleRequests(&protocol.Request{Type: protocol.RegistrationType, Request: &protocol.RegistrationRequest{Username: "alice", Key: []byte("key")}})
	vs.Assert(r.Error == protocol.ReqSuccess, "alice is registered")
	w.s.RunInBackground(func() {})
	w.s.Run(nil)
	vs.Assert(fire(0), "the timer runs")
	vs.Quiesce()
	ts := []int{protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType, protocol.AuditType, protocol.STRType, vs.Int("other", 6, 1000)}
	ti, bi := vs.Choose("type", len(ts)), vs.Choose("body", len(bodies))
	r = w.s.HandleRequests(&protocol.Request{Type: ts[ti], Request: bodies[bi]})
	vs.Assert(r != nil, "there is an answer")
	if ti != bi || ti > 3 {
		vs.Assert(r.Error == protocol.ErrMalformedMessage && r.DirectoryResponse == nil, "a request that does not fit its type is malformed")
		vs.Cover("unfit")
		w.s.Shutdown()
		return
	}
	df, ok := r.DirectoryResponse.(*protocol.DirectoryProof)
	vs.Assert(ok, "a directory proof")
	switch ti {
	case 0:
		vs.Assert(r.Error == protocol.ReqSuccess && df.TB != nil && bytes.Equal(df.TB.Value, []byte("k")), "registration")
	case 1:
		vs.Assert(r.Error == protocol.ReqSuccess && len(df.AP) == 1 && bytes.Equal(df.AP[0].Leaf.Value, []byte("key")), "lookup of the current epoch")
	case 2:
		vs.Assert(r.Error == protocol.ReqNameNotFound && len(df.STR) == 2 && df.STR[0].Epoch == 0, "lookup in an old epoch")
	case 3:
		vs.Assert(r.Error == protocol.ReqSuccess && len(df.STR) == 2 && len(df.AP) == 2, "monitoring of two epochs")
	}
	vs.Cover("served")
	w.s.Shutdown()
}

// Linear: C32, concurrent requests and an epoch update behave as if executed
// one after the other.
func Linear() {
	addrs := []*server.Address{local(true)}
	w := start(60, addrs)
	w.s.Run(addrs)
	vs.Quiesce()
	vs.OneOrder(false)
	vs.Preempt(size(1, 2))
	keys := [][]byte{[]byte("k0"), []byte("k1")}
	var ps []*net.Pipe
	for i := 0; i < 2; i++ {
		ps = append(ps, w.send(0, protocol.RegistrationType, &protocol.RegistrationRequest{Username: "alice", Key: keys[i]}))
	}
	up := vs.Choose("update", 2) == 1
	if up {
		fire(0)
	}
	vs.Quiesce()
	vs.OneOrder(true)
	vs.Preempt(0)
	won := -1
	for i, p := range ps {
		r := reply(protocol.RegistrationType, p)
		vs.Assert(r.Error == protocol.ReqSuccess || r.Error == protocol.ReqNameExisted, "every registration is answered")
		if r.Error == protocol.ReqSuccess {
			vs.Assert(won < 0, "only one of them succeeds")
			won = i
		}
	}
	vs.Assert(won >= 0, "one of them succeeds")
	r := reply(protocol.RegistrationType, ps[1-won])
	df := r.DirectoryResponse.(*protocol.DirectoryProof)
	if df.TB != nil {
		vs.Assert(bytes.Equal(df.TB.Value, keys[won]), "the other learns of the key that was registered")
		vs.Cover("promised")
	} else {
		vs.Assert(bytes.Equal(df.AP[0].Leaf.Value, keys[won]) && df.STR[0].Epoch == 1, "the other finds the registered key")
		vs.Cover("bound")
	}
	if !up {
		fire(0)
		vs.Quiesce()
	} else if w.latest().Epoch == 1 && vs.Choose("again", 2) == 1 {
		fire(0)
		vs.Quiesce()
	}
	q := w.s.HandleRequests(&protocol.Request{Type: protocol.KeyLookupType, Request: &protocol.KeyLookupRequest{Username: "alice"}})
	d := q.DirectoryResponse.(*protocol.DirectoryProof)
	vs.Assert(q.Error == protocol.ReqSuccess, "the name is there afterwards")
	if d.TB != nil {
		vs.Assert(bytes.Equal(d.TB.Value, keys[won]), "promised with the key that won")
	} else {
		vs.Assert(bytes.Equal(d.AP[0].Leaf.Value, keys[won]), "with the key that won")
	}
	w.s.Shutdown()
}

// Epochs: C33, the epochs of a running server.
func Epochs() {
	d := deadline("deadline")
	w := start(d, nil)
	w.s.Run(nil)
	vs.Quiesce()
	vs.Assert(len(time.Timers) == 1, "one epoch timer")
	t := time.Timers[0]
	epoch := uint64(0)
	check := func() {
		s := w.latest()
		vs.Assert(s.Epoch == epoch, "one epoch per expiry")
		vs.Assert(t.Armed, "the timer is running")
		vs.Assert(uint64(t.D[len(t.D)-1]) == uint64(s.Policies.EpochDeadline)*uint64(rtime.Second), "for the published deadline")
		held, _ := probe(w.s.ServerBase)
		vs.Assert(!held, "nothing is locked")
	}
	check()
	// cands are the deadlines that may be published now: the one in force and
	// those configured since, until the last one has had two epochs to arrive
	cands := []protocol.Timestamp{d}
	since := 0
	current := func() {
		got := w.latest().Policies.EpochDeadline
		ok := false
		for _, c := range cands {
			ok = vs.Or(ok, got == c)
		}
		vs.Assert(ok, "a configured deadline is published")
	}
	current()
	steps := size(4, 6)
	for i := 0; i < steps; i++ {
		before := w.latest().Policies.EpochDeadline
		switch vs.Choose("event", 3) {
		case 0:
			ed25519.OnSign = func() {
				_, ex := probe(w.s.ServerBase)
				vs.Assert(ex, "an epoch is published under the exclusive lock")
			}
			fire(0)
			vs.Quiesce()
			ed25519.OnSign = nil
			epoch++
			since++
			if since >= 2 && len(cands) > 1 {
				cands = cands[len(cands)-1:]
				vs.Cover("arrived")
			}
			vs.Cover("epoch")
		case 1:
			// nothing happens
			vs.Quiesce()
			vs.Assert(w.latest().Policies.EpochDeadline == before, "and nothing changes")
		case 2:
			next := deadline("new deadline")
			w.reload(func(c *server.Config) error {
				c.Policies = &server.Policies{EpochDeadline: next, VRFKeyPath: "vrf.priv", SignKeyPath: "sign.priv"}
				c.Logger = &application.LoggerConfig{Environment: "development"}
				return nil
			}, w.vk, w.sk)
			cands = append(cands, next)
			since = 0
			vs.Assert(w.latest().Policies.EpochDeadline == before, "a reload does not change the epoch that is running")
			vs.Cover("reload")
		}
		check()
		current()
	}
	ed25519.OnSign = func() { vs.Fail("an epoch after shutdown") }
	w.s.Shutdown()
	fire(0)
	reload()
	vs.Quiesce()
	vs.Cover("stopped")
}

// reload changes the files and asks for a reload.
func (w *world) reload(f func(c *server.Config) error, vk, sk []byte) {
	os.Put("/etc/coniks/config.toml", []byte("conf"), 0600)
	os.Put("/etc/coniks/vrf.priv", vk, 0600)
	os.Put("/etc/coniks/sign.priv", sk, 0600)
	toml.OnDecode = func(data string, v interface{}) error {
		return f(v.(*server.Config))
	}
	reload()
	vs.Quiesce()
}

var errConf = errors.New("bad file")

// Stopping: C33, an expiry and a shutdown at the same time.
func Stopping() {
	sb := newBase(nil)
	timer := application.NewEpochTimer(60)
	updates := 0
	after := false
	sb.RunInBackground(func() {
		sb.EpochUpdate(timer, func() {
			vs.Assert(!after, "no update after shutdown")
			updates++
		})
	})
	vs.Preempt(size(1, 2))
	if vs.Choose("running", 2) == 1 {
		vs.Quiesce()
	}
	fired := vs.Choose("fired", 2) == 1
	if fired {
		fire(0)
	}
	sb.Shutdown()
	after = true
	vs.Assert(updates == 0 || fired && updates == 1, "one update at most for one expiry")
	fire(0)
	vs.Quiesce()
	if updates == 1 {
		vs.Cover("updated")
	} else {
		vs.Cover("not updated")
	}
}

// Reload: C34, what a reload changes.
func Reload() {
	addrs := []*server.Address{local(true)}
	d := deadline("deadline")
	w := start(d, addrs)
	w.spread("alice", "nobody")
	w.s.Run(addrs)
	vs.Quiesce()
	r := reply(protocol.RegistrationType, w.register())
	vs.Assert(r.Error == protocol.ReqSuccess, "alice registers")
	next := deadline("new deadline")
	vk, sk := []byte(w.vk), []byte(w.sk)
	good := false
	kind := vs.Choose("reload", 9)
	pol := &server.Policies{EpochDeadline: next, VRFKeyPath: "vrf.priv", SignKeyPath: "sign.priv"}
	log := &application.LoggerConfig{Environment: "development"}
	var err error
	var as []*server.Address
	switch kind {
	case 0:
		good = true
	case 1: // other keys
		vk, sk = vs.Bytes("new vrf key", 64), vs.Bytes("new key", 64)
		good = true
	case 2:
		err = errConf
	case 3:
		pol = nil
	case 4:
		log = nil
	case 5:
		as = []*server.Address{{}}
	case 6:
		vk = vk[:63]
	case 7:
		sk = append(append([]byte{}, sk...), 0)
	case 8:
		pol.SignKeyPath = "missing.priv"
	}
	w.reload(func(c *server.Config) error {
		c.Policies, c.Logger, c.Addresses = pol, log, as
		c.LoadedHistoryLength = 1
		return err
	}, vk, sk)
	str := w.latest()
	vs.Assert(str.Epoch == 0 && str.Policies.EpochDeadline == d, "the running epoch is not affected")
	for i := 1; i <= 3; i++ {
		fire(0)
		vs.Quiesce()
		n := w.latest()
		vs.Assert(n.Epoch == uint64(i), "the server goes on")
		vs.Assert(adv.Signed(w.pk, n) && adv.Extends(str, n), "with the same key and chain")
		vs.Assert(bytes.Equal(n.Policies.VrfPublicKey, w.vpk), "and the same VRF key")
		if good {
			vs.Assert(vs.Or(n.Policies.EpochDeadline == d, n.Policies.EpochDeadline == next), "a configured deadline")
			vs.Assert(i < 3 || n.Policies.EpochDeadline == next, "the new deadline is used")
		} else {
			vs.Assert(n.Policies.EpochDeadline == d, "a failed reload leaves the policies in force")
		}
		str = n
	}
	q := w.s.HandleRequests(&protocol.Request{Type: protocol.MonitoringType, Request: &protocol.MonitoringRequest{Username: "alice", StartEpoch: 0, EndEpoch: 3}})
	df, ok := q.DirectoryResponse.(*protocol.DirectoryProof)
	vs.Assert(ok && q.Error == protocol.ReqSuccess && len(df.AP) == 4, "all epochs are still there")
	vs.Assert(bytes.Equal(df.AP[3].Leaf.Value, []byte("key")), "with what was registered")
	if good {
		vs.Cover("changed")
	} else {
		vs.Cover("refused")
	}
	w.s.Shutdown()
}

// register sends a registration of alice.
func (w *world) register() *net.Pipe {
	p := w.send(0, protocol.RegistrationType, &protocol.RegistrationRequest{Username: "alice", Key: []byte("key")})
	vs.Quiesce()
	return p
}

// Initial: C36, the initial tree root a server leaves for auditors.
func Initial() {
	var old []byte
	have := vs.Choose("exists", 2) == 1
	if have {
		old = vs.Bytes("old", 3)
		os.Put("/etc/coniks/init.str", old, 0600)
	}
	w := start(deadline("deadline"), nil)
	n := os.Get("/etc/coniks/init.str")
	if have {
		vs.Assert(n != nil && bytes.Equal(n.Data, old) && n.Writes == 0, "an initial tree root is kept")
		vs.Cover("kept")
		return
	}
	str, err := application.LoadInitSTR("init.str", "/etc/coniks/config.toml")
	vs.Assert(err == nil && n != nil && n.Perm == 0600, "the initial tree root is saved")
	vs.Assert(adv.Equal(str, w.latest()) && adv.Signed(w.pk, str), "it is the server's first")
	vs.Assert(len(os.Names) == 1, "and nothing else")
	vs.Cover("saved")
}
