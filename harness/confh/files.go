package confh

import (
	"bytes"
	"encoding/json"
	"syscall"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/bots"
	"github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/internal/verifh/adv"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/os"
	"github.com/coniks-sys/coniks-go/internal/verifsym/toml"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/utils"
)

// Files: C36, what writing a key, configuration or tree-root file does.
func Files() {
	name := []string{"/d/sign.priv", "rel", "/"}[vs.Choose("name", 3)]
	exists := vs.Choose("exists", 3)
	old := vs.Bytes("old", vs.Choose("old size", 3))
	var before *os.Node
	switch exists {
	case 1:
		before = os.Put(name, old, 0640)
	case 2:
		before = os.Put(name, nil, 0700)
		before.Dir = true
	}
	fault := vs.Choose("fault", 4)
	os.Fault = func(op, file string) error {
		switch {
		case fault == 1 && op == "open":
			return syscall.EACCES
		case fault == 2 && op == "write":
			return syscall.ENOSPC
		case fault == 3 && op == "close":
			return syscall.EIO
		}
		return nil
	}
	os.Short = vs.Choose("short", 2)
	var data []byte
	var str *protocol.DirSTR
	var perm uint32
	var call func() error
	kind := vs.Choose("kind", 7)
	encErr := false
	switch kind {
	case 0:
		data = vs.Bytes("data", 1+vs.Choose("size", 3))
		perm = vs.U32("perm") & 0777
		call = func() error { return utils.WriteFile(name, data, os.FileMode(perm)) }
	case 1:
		str = adv.WireSTR("root")
		for _, b := range []byte(str.Policies.Version + str.Policies.HashID) {
			vs.Assume(b < 0x80)
		}
		perm = 0600
		call = func() error { return application.SaveSTR(name, str) }
	default:
		encErr = vs.Choose("encoding", 2) == 1
		data = []byte("configuration")
		perm = 0644
		var c application.AppConfig
		toml.OnEncode = func(v interface{}) ([]byte, error) {
			vs.Assert(v == interface{}(c), "the configuration itself is encoded")
			if encErr {
				return nil, errBad
			}
			return data, nil
		}
		switch kind {
		case 2:
			c = server.NewConfig(name, "toml", nil, nil, 1, nil, "init.str")
			call = func() error { return c.Save() }
		case 3:
			c = client.NewConfig(name, "toml", "a", "b", "c", "d")
			call = func() error { return c.Save() }
		case 4:
			c = bots.NewTwitterConfig(name, "other", "a", "h", bots.TwitterOAuth{})
			call = func() error { return c.Save() }
		case 5:
			c = client.NewConfig(name, "toml", "a", "b", "c", "d")
			call = func() error { return application.SaveConfig(name, c) }
		case 6:
			s := server.NewConfig(name, "toml", nil, nil, 1, nil, "init.str")
			c = s
			call = func() error { return s.GetLoader().Encode(s) }
		}
	}
	err := call()
	n := os.Get(name)
	if exists != 0 {
		vs.Assert(err != nil, "a file that exists is not written")
		vs.Assert(n == before && n.Writes == 0 && (n.Dir || bytes.Equal(n.Data, old)), "and not touched")
		vs.Assert(uint32(n.Perm) == map[bool]uint32{false: 0640, true: 0700}[n.Dir], "nor are its permissions")
		vs.Cover("exists")
		return
	}
	if encErr {
		vs.Assert(err != nil && n == nil, "what cannot be encoded is not written")
		vs.Cover("not encodable")
		return
	}
	if err != nil {
		vs.Assert(fault != 0, "an error has a reason")
		vs.Cover("failed")
		return
	}
	vs.Assert(fault != 1 && fault != 2, "write errors are returned")
	vs.Assert(n != nil && !n.Dir, "the file is there")
	if kind == 1 {
		got := new(protocol.DirSTR)
		vs.Assert(json.Unmarshal(n.Data, got) == nil && adv.Whole(got) && adv.Equal(got, str), "exactly the tree root is written")
	} else {
		vs.Assert(bytes.Equal(n.Data, data), "exactly the given bytes are written")
	}
	vs.Assert(uint32(n.Perm) == perm, "with the given permissions")
	vs.Assert(len(os.Names) == 1, "and nothing else")
	vs.Cover("written")
}

// RoundTrip: C34/C36, what is saved is what is loaded.
func RoundTrip() {
	str := adv.WireSTR("root")
	for _, b := range []byte(str.Policies.Version + str.Policies.HashID) {
		vs.Assume(b < 0x80)
	}
	vs.Assume(str.Epoch == 0)
	vs.Assert(application.SaveSTR("/etc/coniks/init.str", str) == nil, "saved")
	got, err := application.LoadInitSTR("init.str", conf)
	vs.Assert(err == nil && adv.Whole(got), "loaded")
	vs.Assert(adv.Equal(got, str), "unchanged")
	again := adv.CopySTR(str)
	again.Epoch = vs.U64("other")
	vs.Assert(application.SaveSTR("/etc/coniks/init.str", again) != nil, "a second one is refused")
	got, err = application.LoadInitSTR("init.str", conf)
	vs.Assert(err == nil && adv.Equal(got, str), "the first stays")
	vs.Cover("kept")
}
