package both

import (
	"bytes"
	"errors"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/bots"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/net"
	"github.com/coniks-sys/coniks-go/internal/verifsym/os"
	"github.com/coniks-sys/coniks-go/internal/verifsym/twitter"
	"github.com/coniks-sys/coniks-go/protocol"
)

const sock = "/run/coniks.sock"

func bot() bots.Bot {
	os.Put(sock, nil, 0600)
	b, err := bots.NewTwitterBot(bots.NewTwitterConfig("bot.toml", "toml", sock, "bot", bots.TwitterOAuth{}))
	vs.Assert(err == nil && b != nil, "a bot with good credentials starts")
	return b
}

// folded: the strings are equal but for the case of ASCII letters.
func folded(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := 0; i < len(a); i++ {
		x, y := a[i], b[i]
		up := vs.And(x >= 'A', x <= 'Z', y == x+32)
		dn := vs.And(y >= 'A', y <= 'Z', x == y+32)
		ok = vs.And(ok, vs.Or(x == y, up, dn))
	}
	return ok
}

func ascii(s string) string {
	for i := 0; i < len(s); i++ {
		vs.Assume(s[i] < 0x80)
	}
	return s
}

// world is what the key server does; it is decided when it is contacted.
type world struct {
	p    *net.Pipe
	good []byte // the answer
	ok   bool   // the answer can be obtained
}

func server() *world {
	w := &world{}
	net.OnDial = func(network, address string) (*net.Pipe, error) {
		w.p = &net.Pipe{}
		w.ok = true
		switch vs.Choose("server", 6) {
		case 0:
			n := []int{0, 1, 3}
			w.good = vs.Bytes("answer", n[vs.Choose("answer length", len(n))])
		case 1:
			w.good = bytes.Repeat([]byte{'x'}, 8192)
			vs.Cover("long answer")
		case 2:
			w.p, w.ok = nil, false
			vs.Cover("no server")
			return nil, errors.New("connection refused")
		case 3:
			w.p.WriteErr = errors.New("broken pipe")
			w.ok = false
			vs.Cover("write fails")
		case 4:
			w.p.ReadErr = errors.New("reset")
			w.p.ReadAt = vs.Choose("read fails at", 3)
			w.good = vs.Bytes("answer", 2)
			w.ok = false
			vs.Cover("read fails")
		case 5:
			w.good = []byte(`{"Error":0}` + "\n")
		}
		w.p.In = append([]byte(nil), w.good...)
		return w.p, nil
	}
	return w
}

func code(res string) (protocol.ErrorCode, bool) {
	r := application.UnmarshalResponse(protocol.RegistrationType, []byte(res))
	return r.Error, r.DirectoryResponse == nil
}

// check: what the bot must do with the message.
func check(res string, valid bool, msg []byte, w *world) {
	p, good, ok := w.p, w.good, w.ok
	if !valid {
		vs.Assert(len(net.Dials) == 0, "the key server is not contacted")
		c, empty := code(res)
		vs.Assert(c == protocol.ErrMalformedMessage && empty, "a refused message is answered with a malformed-message error")
		vs.Cover("refused")
		return
	}
	vs.Assert(len(net.Dials) == 1 && net.Dials[0] == "unix "+sock, "the key server is contacted once at its address")
	if p != nil && p.WriteErr == nil {
		vs.Assert(bytes.Equal(p.Out, msg), "exactly the received bytes are passed on")
		vs.Assert(p.HalfClosed, "the key server sees the end of the request")
	}
	if p != nil {
		vs.Assert(p.Closes > 0, "the connection is closed")
	}
	if ok {
		vs.Assert(res == string(good), "exactly the server's answer is returned")
		vs.Cover("forwarded")
	} else {
		c, empty := code(res)
		vs.Assert(c == protocol.ErrDirectory && empty, "a failing server is a directory error")
		vs.Cover("server failed")
	}
}

// Requests: any sender and any name in a request of any type.
func Requests() {
	max := 2
	if vs.Thorough() {
		max = 4
	}
	b := bot()
	user := ascii(vs.Str("user", vs.Choose("user length", max+1)))
	// the name is any string of up to max bytes followed by the service
	// suffix with one arbitrary byte, cut short or extended
	suffix := []byte("@twitter")
	switch at := vs.Choose("suffix", len(suffix)+3); {
	case at < len(suffix):
		suffix[at] = vs.Byte("suffix byte")
		vs.Assume(suffix[at] < 0x80)
	case at == len(suffix):
		suffix = suffix[:vs.Choose("cut", len(suffix))]
	case at == len(suffix)+1:
		suffix = append(suffix, []byte(ascii(vs.Str("more", 1)))...)
	default:
		suffix = []byte("@TWITTER")
	}
	name := ascii(vs.Str("name", vs.Choose("name length", max+1))) + string(suffix)
	key := vs.Bytes("key", vs.Choose("key length", 3))
	types := []int{protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType, 99}
	req := &protocol.Request{Type: types[vs.Choose("type", len(types))]}
	req.Request = &protocol.RegistrationRequest{Username: name, Key: key, AllowUnsignedKeychange: vs.Bool("change"), AllowPublicLookup: vs.Bool("public")}
	msg, err := application.MarshalRequest(req.Type, req.Request)
	vs.Assert(err == nil, "a request can be encoded")
	w := server()
	res := b.HandleRegistration(user, append([]byte(nil), msg...))
	valid := req.Type == protocol.RegistrationType && vs.Decide(folded(user+"@twitter", name))
	check(res, valid, msg, w)
}

type doc struct {
	text  string
	valid bool // for alice
}

var docs = []doc{
	{``, false},
	{`null`, false},
	{`[]`, false},
	{`"alice@twitter"`, false},
	{`{}`, false},
	{`{"Type":0}`, false},
	{`{"Type":0,"Request":null}`, false},
	{`{"Type":0,"Request":[]}`, false},
	{`{"Type":0,"Request":"alice@twitter"}`, false},
	{`{"Type":0,"Request":{}}`, false},
	{`{"Type":0,"Request":{"Key":"aGk="}}`, false},
	{`{"Type":0,"Request":{"Username":"alice@twitter","Key":"aGk="}}`, true},
	{`{"Type":0,"Request":{"Username":"alice@twitter","Key":"aGk="}}` + "\n", true},
	{` {"Request" : {"Key":"aGk=","Username":"Alice@Twitter","More":1},"Type":0 , "X":2}`, true},
	{`{"Type":0,"Request":{"Username":"alice@twitter"}}`, true},
	{`{"Type":0,"Request":{"Username":"bob@twitter","Username":"alice@twitter"}}`, true},
	{`{"Type":0,"Request":{"Username":"alice@twitter","Username":"bob@twitter"}}`, false},
	{`{"Type":0,"Request":{"Username":"alice@twitter","Key":"aGk="}}x`, false},
	{`{"Type":0,"Request":{"Username":"alice@twitter","Key":"aGk="}`, false},
	{`{"Type":0,"Request":{"Username":"alice@twitter","Key":"!"}}`, false},
	{`{"Type":0,"Request":{"Username":"alice","Key":"aGk="}}`, false},
	{`{"Type":0,"Request":{"Username":"alice@twitter ","Key":"aGk="}}`, false},
	{`{"Type":0,"Request":{"Username":"alice@facebook","Key":"aGk="}}`, false},
	{`{"Type":1,"Request":{"Username":"alice@twitter","Key":"aGk="}}`, false},
	{`{"Type":2,"Request":{"Username":"alice@twitter","Epoch":1}}`, false},
	{`{"Type":3,"Request":{"Username":"alice@twitter","StartEpoch":1}}`, false},
	{`{"Type":"0","Request":{"Username":"alice@twitter","Key":"aGk="}}`, false},
	{`{"Type":-1,"Request":{"Username":"alice@twitter","Key":"aGk="}}`, false},
}

// Documents: malformed and unusual encodings.
func Documents() {
	b := bot()
	d := docs[vs.Choose("document", len(docs))]
	w := server()
	res := b.HandleRegistration("Alice", []byte(d.text))
	check(res, d.valid, []byte(d.text), w)
}

// Messages: what the running bot does with direct messages.
func Messages() {
	b := bot()
	b.Run()
	vs.Assert(len(twitter.Streams) == 1, "the bot listens to its stream")
	sender := []string{"alice", "Bob", "bot", "BOT"}[vs.Choose("sender", 4)]
	own := folded(sender, "bot")
	d := docs[[]int{0, 11, 12, 13, 20}[vs.Choose("document", 5)]]
	prefix := []string{"?CONIKS?", "", "?coniks?", "?CONIKS", " ?CONIKS?", "?CONIKS??CONIKS?"}[vs.Choose("prefix", 6)]
	w := server()
	if vs.Choose("sending", 2) == 1 {
		twitter.NewErr = twitter.ErrForbidden
		vs.Cover("cannot send")
	}
	st := twitter.Streams[0]
	st.Messages <- &twitter.Tweet{Text: prefix + d.text}
	st.Messages <- &twitter.DirectMessage{ID: 7, SenderScreenName: sender, Text: prefix + d.text}
	vs.Quiesce()
	switch {
	case own, prefix != "?CONIKS?" && prefix != "?CONIKS??CONIKS?":
		vs.Assert(len(net.Dials) == 0 && len(twitter.Sent) == 0, "the bot's own and other messages are not acted upon")
		vs.Cover("ignored")
	default:
		valid := d.valid && folded(sender, "alice") && prefix == "?CONIKS?"
		if twitter.NewErr != nil {
			if !valid {
				vs.Assert(len(net.Dials) == 0, "the key server is not contacted for a refused message")
			}
			break
		}
		vs.Assert(len(twitter.Sent) == 1 && twitter.Sent[0].ScreenName == sender, "one answer goes to the sender")
		t := twitter.Sent[0].Text
		vs.Assert(len(t) >= 8 && t[:8] == "?CONIKS?", "the answer carries the prefix")
		check(t[8:], valid, []byte(d.text), w)
		vs.Cover("answered")
	}
	b.Stop()
	vs.Quiesce()
	vs.Assert(st.Stops == 1, "stopping closes the stream")
}

// Start: a bot starts only with the key server present and its own handle.
func Start() {
	if vs.Choose("server", 2) == 1 {
		os.Put(sock, nil, 0600)
	}
	n := vs.Choose("old", 3)
	for i := 0; i < n; i++ {
		twitter.Old = append(twitter.Old, twitter.DirectMessage{ID: int64(i + 1), SenderScreenName: "alice",
			Text: `?CONIKS?{"Type":0,"Request":{"Username":"alice@twitter","Key":"aGk="}}`})
	}
	twitter.Account = vs.Str("account", 3)
	if vs.Choose("credentials", 2) == 1 {
		twitter.VerifyErr = twitter.ErrForbidden
	}
	b, err := bots.NewTwitterBot(bots.NewTwitterConfig("bot.toml", "toml", sock, "bot", bots.TwitterOAuth{}))
	should := os.Get(sock) != nil && twitter.VerifyErr == nil && twitter.Account == "bot"
	vs.Assert((err == nil) == should, "a bot starts only for its own account next to a key server")
	vs.Assert(err == nil || b == nil, "no bot with an error")
	if err == nil {
		vs.Assert(len(twitter.Old) == 0, "old messages are deleted")
		vs.Cover("started")
	} else {
		vs.Cover("refused")
	}
	vs.Assert(len(net.Dials) == 0 && len(twitter.Sent) == 0, "old messages are not acted upon")
}
