package clih

import (
	"bytes"
	"encoding/json"
	"errors"

	"github.com/coniks-sys/coniks-go/application"
	clientapp "github.com/coniks-sys/coniks-go/application/client"
	bridge "github.com/coniks-sys/coniks-go/cli/coniksclient/verifbridge"
	"github.com/coniks-sys/coniks-go/internal/verifh/adv"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/cobra"
	"github.com/coniks-sys/coniks-go/internal/verifsym/net"
	"github.com/coniks-sys/coniks-go/internal/verifsym/os"
	"github.com/coniks-sys/coniks-go/internal/verifsym/terminal"
	"github.com/coniks-sys/coniks-go/internal/verifsym/toml"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
)

// setup writes the client's files and says what is typed.
func (s *state) setup(regAddr, addr string, next func(i int) (string, bool)) {
	os.Put("/c/config.toml", []byte("config"), 0600)
	os.Put("/c/sign.pub", s.pk, 0600)
	b, err := json.Marshal(s.v)
	if err != nil {
		panic(err)
	}
	os.Put("/c/init.str", b, 0600)
	toml.OnDecode = func(data string, v interface{}) error {
		c := v.(*clientapp.Config)
		c.SignPubkeyPath, c.InitSTRPath = "sign.pub", "init.str"
		c.RegAddress, c.Address = regAddr, addr
		return nil
	}
	cobra.Args = []string{"run"}
	cobra.Flags = [][2]string{{"config", "/c/config.toml"}}
	terminal.Next = next
}

// pinned is a client that has only its configuration.
func pinned() *state {
	s := newState(none, false)
	delete(s.cc.TBs, "someone else")
	delete(s.cc.Bindings, "someone else")
	s.v.Epoch = 0
	plain(s.v)
	for i := 0; i < len(s.uname); i++ {
		vs.Assume(vs.And(s.uname[i] >= 'a', s.uname[i] <= 'z'))
	}
	return s
}

func word(name string, n int) string {
	w := vs.Str(name, n)
	for i := range []byte(w) {
		vs.Assume(vs.And(w[i] >= 'a', w[i] <= 'z'))
	}
	return w
}

const (
	registered = "[+] Succesfully registered name: "
	existing   = "[+] Name is already registered."
	found      = "[+] Found! Key bound to name is: ["
	absent     = "[+] Name isn't registered."
)

func starts(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// answered: the line claims a result.
func claims(line string) bool {
	return starts(line, "[+] Succes") || starts(line, "[+] Name is") || starts(line, "[+] Found")
}

// serve queues what the server answers to the next request.
func serve(b []byte) *net.Pipe {
	p := &net.Pipe{In: b}
	net.OnDial = func(network, address string) (*net.Pipe, error) { return p, nil }
	return p
}

// request checks what was sent.
func request(p *net.Pipe, s *state, reg bool, key []byte) {
	r, err := application.UnmarshalRequest(p.Out)
	vs.Assert(err == nil, "the request can be decoded")
	if reg {
		q, ok := r.Request.(*protocol.RegistrationRequest)
		vs.Assert(ok && r.Type == protocol.RegistrationType && q.Username == s.uname && bytes.Equal(q.Key, key), "the binding typed is requested")
	} else {
		q, ok := r.Request.(*protocol.KeyLookupRequest)
		vs.Assert(ok && r.Type == protocol.KeyLookupType && q.Username == s.uname, "the name typed is looked up")
	}
	vs.Assert(p.HalfClosed && p.Closes > 0, "the connection is closed")
}

// shown checks what is printed for an answer.
func shown(s *state, a *answer, line string, good bool) {
	vs.Assert(starts(line, "[+] ") && len(line) > 6 && line[len(line)-2:] == "\r\n", "every command prints a line")
	line = line[:len(line)-2]
	code := a.msg.Error
	if !good {
		vs.Assert(!claims(line), "an answer that does not verify is not shown as a result")
		vs.Cover("refused")
		return
	}
	switch {
	case a.reg && code == protocol.ReqSuccess:
		vs.Assert(line == registered+s.uname, "a verified registration is reported")
		vs.Cover("registered")
	case a.reg:
		vs.Assert(line == existing, "an existing name is reported")
		vs.Cover("existing")
	case code == protocol.ReqSuccess:
		key := a.ap.Leaf.Value
		if !a.incl {
			key = a.tb.Value
		}
		vs.Assert(line == found+string(key)+"]", "the verified key is shown")
		if a.incl {
			vs.Cover("found")
		} else {
			vs.Cover("promised")
		}
	default:
		vs.Assert(line == absent, "an unregistered name is reported")
		vs.Cover("absent")
	}
}

func wire(a *answer) []byte {
	plain(a.str)
	b, err := json.Marshal(a.msg)
	if err != nil {
		panic(err)
	}
	return b
}

// Command: C37. Any answer to a first command.
func Command() {
	s := pinned()
	reg := vs.Choose("command", 2) == 1
	line := "lookup " + s.uname
	var key []byte
	if reg {
		k := word("typed key", 1)
		key = []byte(k)
		line = "register " + s.uname + " " + k
	}
	a := answerTo(s, shape{levels: 1, tag: "1"}, reg, key)
	p := serve(wire(a))
	s.setup("tcp://reg:1", "tcp://pub:2", func(i int) (string, bool) { return line, i == 0 })
	bridge.Execute()
	net1 := "tcp pub:2"
	if reg {
		net1 = "tcp reg:1"
	}
	vs.Assert(len(net.Dials) == 1 && net.Dials[0] == net1, "each request goes to its server")
	request(p, s, reg, key)
	vs.Assert(!terminal.Raw && terminal.Restored == 1, "the terminal is restored")
	out := string(terminal.Out)
	eof := "EOF\r\n"
	vs.Assert(len(out) > len(eof) && out[len(out)-len(eof):] == eof, "the end of input ends the program")
	shown(s, a, out[:len(out)-len(eof)], vs.Decide(vs.And(a.proven(), a.promiseOK())))
}

// Later: C37. Any answer to a lookup after a successful registration.
func Later() {
	s := pinned()
	k := word("typed key", 1)
	key := []byte(k)
	first := accepted(s, key)
	after := *s
	after.held = first.tb
	second := answerTo(&after, shape{levels: 1, tag: "2"}, vs.Choose("command", 2) == 1, key)
	line := "lookup " + s.uname
	if second.reg {
		line = "register " + s.uname + " " + k
	}
	mark := 0
	s.setup("", "unix:///run/c.sock", func(i int) (string, bool) {
		switch i {
		case 0:
			serve(wire(first))
			return "register " + s.uname + " " + k, true
		case 1:
			shown(s, first, string(terminal.Out), true)
			mark = len(terminal.Out)
			serve(wire(second))
			return line, true
		}
		return "exit", i == 2
	})
	bridge.Execute()
	vs.Assert(len(net.Dials) == 2 && net.Dials[0] == "unix /run/c.sock" && net.Dials[1] == net.Dials[0], "each request goes to the server")
	out := string(terminal.Out[mark:])
	bye := "[+] See ya.\r\n"
	vs.Assert(len(out) > len(bye) && out[len(out)-len(bye):] == bye, "exit ends the program")
	good := vs.Decide(vs.And(second.proven(), second.promiseOK(), vs.Not(second.broken(&after))))
	shown(&after, second, out[:len(out)-len(bye)], good)
	vs.Cover("later")
}

var raw = []string{``, `null`, `{}`, `[]`, `x`, `{"Error":100}`, `{"Error":101}`, `{"Error":102}`, `{"Error":103}`, `{"Error":104}`, `{"Error":100,"DirectoryResponse":null}`,
	`{"Error":100,"DirectoryResponse":{}}`, `{"Error":101,"DirectoryResponse":{"AP":[],"STR":[]}}`, `{"Error":100,"DirectoryResponse":{"AP":[null],"STR":[null]}}`,
	`{"Error":100,"DirectoryResponse":[]}`, `{"Error":103,"DirectoryResponse":{"STR":[{"Epoch":0}]}}`, `{"Error":`}

// Failing: C37. No answer, answers that are none, and configurations that
// name no server.
func Failing() { failing(false) }

// FailingLater: C37. The same after a verified registration.
func FailingLater() { failing(true) }

// accepted is a first answer to the registration of key that verifies.
func accepted(s *state, key []byte) *answer {
	first := &answer{reg: true, key: key}
	first.str = adv0(s)
	first.ap = pathTo("F")
	first.tb = &protocol.TemporaryBinding{Index: append([]byte(nil), first.ap.LookupIndex...), Value: append([]byte(nil), key...), Signature: vs.Bytes("tbsigF", 64)}
	first.msg = reply(protocol.ReqSuccess, first)
	first.judge(s)
	vs.Assume(vs.And(first.proven(), first.promiseOK()))
	vs.Assume(!first.incl)
	return first
}

func failing(later bool) {
	s := pinned()
	if later {
		s.uname = "alice"
	}
	reg := vs.Choose("command", 2) == 1
	line := "lookup alice"
	if reg {
		line = "register alice key"
	}
	addrs := []string{"tcp://pub:2", "unix:///run/c.sock", "", "http://pub:2", "pub", "://", "%zz", "tcp://[::1", "tcp:", "unix:", "\x7f"}
	addr := addrs[vs.Choose("address", len(addrs))]
	regAddr := ""
	switch vs.Choose("registration address", 3) {
	case 1:
		regAddr = addr
		if reg {
			addr = "http://unused"
		}
	case 2:
		regAddr = "http://unused"
		if reg {
			regAddr = "%"
		}
	}
	p := &net.Pipe{In: []byte(raw[0])}
	var first *answer
	if later {
		// the registration is sent where the later request goes to
		vs.Assume(addr == "tcp://pub:2" || addr == "unix:///run/c.sock")
		vs.Assume(regAddr == "" || regAddr == addr)
		first = accepted(s, []byte("key"))
	}
	mark, dials := 0, 0
	net.OnDial = func(network, address string) (*net.Pipe, error) {
		if later && len(net.Dials) == 1 {
			return &net.Pipe{In: wire(first)}, nil
		}
		switch vs.Choose("failure", 4) {
		case 1:
			return nil, errors.New("connection refused")
		case 2:
			p.WriteErr = errors.New("broken pipe")
		case 3:
			p.ReadErr = errors.New("reset")
		default:
			p.In = []byte(raw[vs.Choose("answer", len(raw))])
			vs.Cover("no proof")
		}
		return p, nil
	}
	s.setup(regAddr, addr, func(i int) (string, bool) {
		if later {
			if i == 0 {
				return "register alice key", true
			}
			if i == 1 {
				mark, dials = len(terminal.Out), len(net.Dials)
				vs.Assert(dials == 1 && claims(string(terminal.Out)), "the registration is reported")
			}
			i--
		}
		if i == 0 {
			return line, true
		}
		return "q", i == 1
	})
	bridge.Execute()
	out := string(terminal.Out[mark:])
	bye := "[+] See ya.\r\n"
	vs.Assert(len(out) > len(bye) && out[len(out)-len(bye):] == bye, "the client goes on after a failed command")
	out = out[:len(out)-len(bye)]
	vs.Assert(starts(out, "[+] ") && len(out) > 6, "every command prints a line")
	vs.Assert(!claims(out), "without an answer there is no result")
	vs.Assert(len(net.Dials)-dials <= 1, "one request")
	if len(net.Dials) == dials {
		vs.Cover("no server")
	} else {
		vs.Cover("tried")
	}
}

// Lines: C37. Lines that are no complete command contact nobody.
func Lines() {
	s := pinned()
	lines := []string{"", "   ", "register", "register alice", "register alice key more", "lookup", "lookup alice key", "help", "enable", "enable timestamp",
		"disable timestamp", "enable x", "Register alice key", "LOOKUP alice", "quit"}
	line := lines[vs.Choose("line", len(lines))]
	s.setup("tcp://reg:1", "tcp://pub:2", func(i int) (string, bool) { return line, i == 0 })
	bridge.Execute()
	vs.Assert(len(net.Dials) == 0, "nobody is contacted")
	vs.Assert(!claims(string(terminal.Out)), "and there is no result")
	vs.Cover("ignored")
}

func adv0(s *state) *protocol.DirSTR { return adv.CopySTR(s.v) }

func pathTo(tag string) *merkletree.AuthenticationPath {
	ap := adv.HostilePath(tag, vs.Bytes("lookup"+tag, 32), 1, 0)
	ap.VrfProof = vs.Bytes("proof"+tag, 96)
	return ap
}

func reply(code protocol.ErrorCode, a *answer) *protocol.Response {
	return &protocol.Response{Error: code, DirectoryResponse: &protocol.DirectoryProof{
		AP: []*merkletree.AuthenticationPath{a.ap}, STR: []*protocol.DirSTR{a.str}, TB: a.tb}}
}

// plain: the policies' texts survive the encoding.
func plain(str *protocol.DirSTR) {
	for _, t := range []string{str.Policies.Version, str.Policies.HashID} {
		for i := 0; i < len(t); i++ {
			vs.Assume(t[i] < 0x80)
		}
	}
}
