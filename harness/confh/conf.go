// Package confh checks configurations and the files they name.
package confh

import (
	"bytes"
	"encoding/json"
	"errors"
	"syscall"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/bots"
	"github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/internal/verifh/adv"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/os"
	"github.com/coniks-sys/coniks-go/internal/verifsym/toml"
	"github.com/coniks-sys/coniks-go/protocol"
)

var errBad = errors.New("bad file")

// path is how a configuration names a file, and where that is.
func path(tag, name string) (string, string) { return place(vs.Choose(tag+" path", 3), name) }

func place(c int, name string) (string, string) {
	switch c {
	case 0:
		return name, "/etc/coniks/" + name
	case 1:
		return "../keys/" + name, "/etc/keys/" + name
	}
	return "/srv/" + name, "/srv/" + name
}

// keyFile makes a file for a key of n bytes: it may be missing, unreadable or
// of the wrong size. It returns the contents and whether they are a key.
func keyFile(tag, name string, n int) (data []byte, good bool) {
	k := []int{n, n - 1, n + 1, 0, n / 2, 2 * n}
	c := vs.Choose(tag, len(k)+2)
	if c >= len(k) {
		if c == len(k) {
			return nil, false // missing
		}
		os.Put(name, vs.Bytes(tag+" data", n), 0600)
		old := os.Fault
		os.Fault = func(op, file string) error {
			if file == name && op != "stat" {
				return syscall.EIO
			}
			return old(op, file)
		}
		return nil, false
	}
	data = vs.Bytes(tag+" data", k[c])
	os.Put(name, data, 0600)
	return data, c == 0
}

// file makes the configuration file: missing, undecodable, or decoding to
// what fill does.
func file(fill func(v interface{})) bool {
	c := vs.Choose("file", 3)
	if c > 0 {
		os.Put("/etc/coniks/config.toml", []byte("conf"), 0600)
	}
	toml.OnDecode = func(data string, v interface{}) error {
		if fill != nil {
			fill(v) // also when decoding fails half way
		}
		if c == 1 {
			return errBad
		}
		return nil
	}
	return c == 2
}

const conf = "/etc/coniks/config.toml"

// Server: C34, loading a server's configuration.
func Server() {
	sp, sf := path("sign", "sign.priv")
	vp, vf := path("vrf", "vrf.priv")
	o := vs.Choose("other paths", 3)
	lp, lf := place(o, "coniks.log")
	cp, cf := place(2-o, "cert.pem")
	kp, kf := place((o+1)%3, "key.pem")
	sk, okS := keyFile("sign", sf, 64)
	vk, okV := keyFile("vrf", vf, 64)
	d := protocol.Timestamp(vs.U64("deadline"))
	hist := vs.U64("history")
	policies := vs.Choose("policies", 2) == 1
	logger := vs.Choose("logger", 2) == 1
	addrs := vs.Choose("addresses", 4)
	okF := file(func(v interface{}) {
		c := v.(*server.Config)
		c.LoadedHistoryLength = hist
		c.InitSTRPath = "init.str"
		if policies {
			c.Policies = &server.Policies{EpochDeadline: d, SignKeyPath: sp, VRFKeyPath: vp}
		}
		if logger {
			c.Logger = &application.LoggerConfig{Environment: "production", Path: lp}
		}
		if addrs > 0 {
			a := &server.Address{AllowRegistration: true}
			if addrs > 1 {
				a.ServerAddress = &application.ServerAddress{Address: "tcp://h:1", TLSCertPath: cp, TLSKeyPath: kp}
			}
			c.Addresses = append(c.Addresses, a)
		}
		if addrs > 2 {
			c.Addresses = append(c.Addresses, &server.Address{ServerAddress: &application.ServerAddress{Address: "unix:///s"}})
		}
	})
	c := &server.Config{}
	err := c.Load(conf, "toml")
	good := okF && okS && okV && policies && logger && addrs != 1
	if !good {
		if addrs == 0 {
			vs.Assert(err != nil || okF && okS && okV && policies, "a bad configuration is refused")
		} else {
			vs.Assert(err != nil, "a bad configuration is refused")
		}
		vs.Cover("bad")
		return
	}
	vs.Assert(err == nil, "a good configuration is loaded")
	vs.Assert(c.LoadedHistoryLength == hist && c.Policies.EpochDeadline == d && c.InitSTRPath == "init.str", "with its values")
	vs.Assert(c.Logger.Path == lf && c.Logger.Environment == "production", "the log file is next to it")
	vs.Assert(c.GetPath() == conf, "and its path")
	n := addrs - 1
	if addrs == 0 {
		n = 0
	}
	vs.Assert(len(c.Addresses) == n, "all addresses")
	if addrs > 1 {
		a := c.Addresses[0]
		vs.Assert(a.Address == "tcp://h:1" && a.AllowRegistration && a.TLSCertPath == cf && a.TLSKeyPath == kf, "with their values")
	}
	if addrs > 2 {
		vs.Assert(c.Addresses[1].Address == "unix:///s" && !c.Addresses[1].AllowRegistration, "with their permissions")
	}
	want := server.NewPolicies(d, sp, vp, vk, sk)
	want.SignKeyPath, want.VRFKeyPath = c.Policies.SignKeyPath, c.Policies.VRFKeyPath
	vs.Assert(vs.Same(vs.Snapshot(want), c.Policies), "the keys are those of the files")
	vs.Cover("good")
}

// initial makes the contents of a file with an initial tree root.
func initial() (data []byte, str *protocol.DirSTR, good bool) {
	switch vs.Choose("root", 12) {
	case 0:
		str = adv.WireSTR("root")
		for _, b := range []byte(str.Policies.Version + str.Policies.HashID) {
			vs.Assume(b < 0x80)
		}
		b, err := json.Marshal(str)
		if err != nil {
			panic(err)
		}
		return b, str, vs.Decide(str.Epoch == 0)
	case 1:
		return []byte("null"), nil, false
	case 2:
		return []byte("{}"), nil, false
	case 3:
		return []byte(""), nil, false
	case 4:
		return []byte("7"), nil, false
	case 5:
		return []byte("[]"), nil, false
	case 6:
		return []byte("{\"Epoch\":0}"), nil, false
	case 7:
		return []byte("{\"Epoch\":1}"), nil, false
	case 8:
		return []byte("{\"Policies\":{}}"), nil, false
	case 9:
		return []byte("{\"Epoch\":\"0\"}"), nil, false
	case 10:
		return []byte("{\"Epoch\":0,"), nil, false
	}
	return []byte("{\"Policies\":null,\"Epoch\":0}"), nil, false
}

// Client: C34, loading a client's configuration.
func Client() {
	sp, sf := path("sign", "sign.pub")
	ip, ipf := path("init", "init.str")
	pk, okS := keyFile("sign", sf, 32)
	okI := false
	var str *protocol.DirSTR
	switch vs.Choose("init", 3) {
	case 0:
	case 1:
		var data []byte
		data, str, okI = initial()
		os.Put(ipf, data, 0600)
	case 2:
		os.Put(ipf, []byte("{}"), 0600)
		old := os.Fault
		os.Fault = func(op, file string) error {
			if file == ipf && op != "stat" {
				return syscall.EIO
			}
			return old(op, file)
		}
	}
	reg := vs.Choose("registration address", 2) == 1
	okF := file(func(v interface{}) {
		c := v.(*client.Config)
		c.SignPubkeyPath, c.InitSTRPath = sp, ip
		c.Address = "tcp://h:1"
		if reg {
			c.RegAddress = "unix:///r"
		}
	})
	c := &client.Config{}
	err := c.Load(conf, "toml")
	if !okF || !okS || !okI {
		vs.Assert(err != nil, "a bad configuration is refused")
		vs.Cover("bad")
		return
	}
	vs.Assert(err == nil, "a good configuration is loaded")
	vs.Assert(bytes.Equal(c.SigningPubKey, pk), "with the key of the file")
	vs.Assert(adv.Whole(c.InitSTR) && adv.Equal(c.InitSTR, str), "and its tree root")
	vs.Assert(c.Address == "tcp://h:1" && (c.RegAddress == "unix:///r") == reg, "and its addresses")
	vs.Cover("good")
}

// Bot: C34, loading a bot's configuration.
func Bot() {
	okF := file(func(v interface{}) {
		c := v.(*bots.TwitterConfig)
		c.CONIKSAddress, c.Handle = "/tmp/c.sock", "bot"
		c.ConsumerKey = "a"
	})
	c := &bots.TwitterConfig{}
	err := c.Load(conf, "toml")
	vs.Assert((err == nil) == okF, "a configuration that does not decode is refused")
	if okF {
		vs.Assert(c.CONIKSAddress == "/tmp/c.sock" && c.Handle == "bot" && c.ConsumerKey == "a", "with its values")
		vs.Cover("good")
	} else {
		vs.Cover("bad")
	}
}
