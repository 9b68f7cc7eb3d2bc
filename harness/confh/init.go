package confh

import (
	"bytes"
	"syscall"

	"github.com/coniks-sys/coniks-go/application/bots"
	"github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/application/server"
	botcmd "github.com/coniks-sys/coniks-go/cli/coniksbot/verifbridge"
	clientcmd "github.com/coniks-sys/coniks-go/cli/coniksclient/verifbridge"
	servercmd "github.com/coniks-sys/coniks-go/cli/coniksserver/verifbridge"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/cobra"
	"github.com/coniks-sys/coniks-go/internal/verifsym/os"
	"github.com/coniks-sys/coniks-go/internal/verifsym/toml"
)

// Init: C36. The init commands of the three programs, with any of their files
// present already and any one operation failing.
func Init() {
	var files []string
	var run func()
	prog := vs.Choose("program", 3)
	switch prog {
	case 0:
		files, run = []string{"config.toml", "sign.priv", "sign.pub", "vrf.priv", "vrf.pub"}, servercmd.Execute
	case 1:
		files, run = []string{"config.toml"}, clientcmd.Execute
	case 2:
		files, run = []string{"botconfig.toml"}, botcmd.Execute
	}
	old := make([]*os.Node, len(files))
	was := make([][]byte, len(files))
	for i, f := range files {
		if vs.Choose("exists "+f, 2) == 1 {
			was[i] = vs.Bytes("old "+f, 1)
			old[i] = os.Put("/d/"+f, append([]byte(nil), was[i]...), 0604)
		}
	}
	failAt, op := "", ""
	if k := vs.Choose("failing file", len(files)+1); k > 0 {
		failAt, op = "/d/"+files[k-1], []string{"open", "write"}[vs.Choose("failing operation", 2)]
		os.Fault = func(o, name string) error {
			if o == op && name == failAt {
				return syscall.ENOSPC
			}
			return nil
		}
	}
	text := []byte("configuration")
	toml.OnEncode = func(v interface{}) ([]byte, error) {
		switch v.(type) {
		case *server.Config:
			vs.Assert(prog == 0, "a program writes its own configuration")
		case *client.Config:
			vs.Assert(prog == 1, "a program writes its own configuration")
		case *bots.TwitterConfig:
			vs.Assert(prog == 2, "a program writes its own configuration")
		default:
			vs.Fail("a configuration is written")
		}
		return text, nil
	}
	cobra.Args, cobra.Flags = []string{"init"}, [][2]string{{"dir", "/d"}}
	exited := exits(run)
	vs.Assert(exited == nil || prog == 1, "only the client's init exits on failure")
	got := map[string]*os.Node{}
	for i, f := range files {
		n := os.Get("/d/" + f)
		if old[i] != nil {
			vs.Assert(n == old[i] && n.Writes == 0 && bytes.Equal(n.Data, was[i]) && n.Perm == 0604, "a file that exists is not touched")
			vs.Cover("kept")
			continue
		}
		if failAt == "/d/"+f {
			continue
		}
		if n != nil {
			got[f] = n
		}
	}
	for _, f := range []string{"sign", "vrf"} {
		pr, pu := got[f+".priv"], got[f+".pub"]
		if pr != nil {
			vs.Assert(pr.Perm&077 == 0, "a private key is readable by its owner only")
		}
		if pu != nil {
			vs.Assert(pr != nil, "a public key is written only for the private key written with it")
			var pk []byte
			var ok bool
			if f == "sign" {
				pk, ok = pub(sign.PrivateKey(pr.Data).Public())
			} else {
				pk, ok = pub(vrf.PrivateKey(pr.Data).Public())
			}
			vs.Assert(ok && bytes.Equal(pk, pu.Data), "the two keys belong together")
			vs.Cover("keys")
		}
	}
	if failAt == "" {
		if prog == 0 {
			for _, f := range []string{"sign", "vrf"} {
				if os.Get("/d/"+f+".priv") == got[f+".priv"] {
					vs.Assert(got[f+".priv"] != nil, "a missing key is created")
				}
			}
		}
		if c := got[files[0]]; c != nil {
			vs.Assert(bytes.Equal(c.Data, text), "the configuration is written")
			vs.Cover("configured")
		}
	}
	for i := range os.Names {
		known := false
		for _, f := range files {
			known = known || os.Names[i] == "/d/"+f
		}
		vs.Assert(known, "nothing else is written")
	}
}

func pub(k interface{}, ok bool) ([]byte, bool) {
	switch k := k.(type) {
	case sign.PublicKey:
		return k, ok
	case vrf.PublicKey:
		return k, ok
	}
	return nil, false
}

// exits runs the program until it ends or exits.
func exits(run func()) (code *os.Exited) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(os.Exited)
			if !ok {
				panic(r)
			}
			code = &e
		}
	}()
	run()
	return nil
}
