package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The overlay gives the engine and the native build the same program: the
// repository's current source with the imports of primitives (hashing,
// signatures, randomness, files, timers, network, databases) redirected to the
// models in /verif/shim, plus the harnesses.

const modPath = "github.com/coniks-sys/coniks-go"

var shimImports = map[string]string{
	"golang.org/x/crypto/sha3":               "sha3",
	"golang.org/x/crypto/ed25519":            "ed25519",
	"crypto/ed25519":                         "ed25519",
	"crypto/rand":                            "rand",
	"io/ioutil":                              "ioutil",
	"os":                                     "os",
	"os/signal":                              "signal",
	"time":                                   "time",
	"net":                                    "net",
	"crypto/tls":                             "tls",
	"github.com/BurntSushi/toml":             "toml",
	"github.com/syndtr/goleveldb/leveldb":    "leveldb",
	"golang.org/x/crypto/ssh/terminal":       "terminal",
	"go.uber.org/zap":                        "zap",
	"github.com/dghubble/go-twitter/twitter": "twitter",
	"github.com/dghubble/oauth1":             "oauth1",
	"github.com/spf13/cobra":                 "cobra",
}

type Overlay struct {
	repo  string
	files map[string][]byte // path -> contents
	subst map[string][]bodySubst
	Sites []string
}

// bodySubst replaces the body of a function by a call of a model function.
type bodySubst struct {
	recv, name string
	call       string // function called with the receiver (if any) and the parameters
}

func repoGoFiles(repo string) ([]string, error) {
	var out []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out, err
}

func buildOverlay(repo, verif string, opt map[string]bool) (*Overlay, error) {
	o := &Overlay{repo: repo, files: map[string][]byte{}, subst: map[string][]bodySubst{}}
	keepLow = opt["arith"]
	if opt["vrf"] {
		o.subst["crypto/vrf/vrf.go"] = []bodySubst{
			{"", "GenerateKey", "verifGenerateKey"},
			{"PrivateKey", "Public", "verifPublic"},
			{"PrivateKey", "Compute", "verifCompute"},
			{"PrivateKey", "Prove", "verifProve"},
			{"PublicKey", "Verify", "verifVerify"},
		}
	}
	if opt["group"] {
		o.subst["crypto/internal/ed25519/edwards25519/edwards25519.go"] = []bodySubst{
			{"ProjectiveGroupElement", "ToBytes", "verifProjBytes"},
			{"ExtendedGroupElement", "ToBytes", "verifBytes"},
			{"ExtendedGroupElement", "FromBytes", "verifFromBytes"},
			{"", "GeDouble", "verifDouble"},
			{"", "GeAdd", "verifAdd"},
			{"", "GeScalarMult", "verifMult"},
			{"", "GeScalarMultBase", "verifMultBase"},
			{"", "GeDoubleScalarMultVartime", "verifDoubleMult"},
			{"", "ScReduce", "verifReduce"},
			{"", "ScNeg", "verifNeg"},
			{"", "ScMulAdd", "verifMulAdd"},
		}
		o.subst["crypto/internal/ed25519/extra25519/extra25519.go"] = []bodySubst{
			{"", "HashToEdwards", "verifHashToEdwards"},
		}
	}
	files, err := repoGoFiles(repo)
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		rel, _ := filepath.Rel(repo, f)
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		out, ch, err := o.rewrite(rel, src, opt)
		if err != nil {
			// leave it to the loader to report
			continue
		}
		if ch {
			o.files[f] = out
		}
	}
	add := func(dir, dst string) error {
		return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(dir, p)
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			o.files[filepath.Join(dst, rel)] = b
			return nil
		})
	}
	if err := add(filepath.Join(verif, "shim"), filepath.Join(repo, "internal/verifsym")); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(verif, "harness"), filepath.Join(repo, "internal/verifh")); err != nil {
		return nil, err
	}
	for path, name := range shimImports {
		if b := rest(filepath.Join(verif, "shim", name), path); b != nil && shimExists(name) && path != "crypto/ed25519" {
			o.files[filepath.Join(repo, "internal/verifsym", name, "zz_rest.go")] = b
		}
	}
	// in-package accessors
	if err := add(filepath.Join(verif, "inpkg/pk"), repo); err != nil {
		return nil, err
	}
	if opt["vrf"] {
		b, err := os.ReadFile(filepath.Join(verif, "inpkg/vrf/vrfmodel.go.txt"))
		if err != nil {
			return nil, err
		}
		o.files[filepath.Join(repo, "crypto/vrf/zz_verif_model.go")] = b
	}
	if opt["group"] {
		for src, dst := range map[string]string{"edwards.go.txt": "edwards25519", "extra.go.txt": "extra25519", "bridge.go.txt": "../../verifgroup"} {
			b, err := os.ReadFile(filepath.Join(verif, "inpkg/group", src))
			if err != nil {
				return nil, err
			}
			o.files[filepath.Join(repo, "crypto/internal/ed25519", dst, "zz_verif_model.go")] = b
		}
	}
	return o, nil
}

func recvName(fd *ast.FuncDecl) string {
	if fd.Recv == nil || len(fd.Recv.List) == 0 {
		return ""
	}
	t := fd.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

type edit struct {
	from, to int
	text     string
}

func (o *Overlay) rewrite(rel string, src []byte, opt map[string]bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	replaced := map[*ast.FuncDecl]bool{}
	for _, s := range o.subst[rel] {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name != s.name || recvName(fd) != s.recv {
				continue
			}
			var args []string
			bad := false
			collect := func(fl *ast.FieldList) {
				if fl == nil {
					return
				}
				for _, fld := range fl.List {
					if len(fld.Names) == 0 {
						bad = true
					}
					for _, n := range fld.Names {
						if n.Name == "_" {
							bad = true
						}
						args = append(args, n.Name)
					}
				}
			}
			collect(fd.Recv)
			collect(fd.Type.Params)
			if bad {
				continue
			}
			ret := ""
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				ret = "return "
			}
			edits = append(edits, edit{off(fd.Body.Lbrace), off(fd.Body.Rbrace) + 1, "{ " + ret + s.call + "(" + strings.Join(args, ", ") + ") }"})
			replaced[fd] = true
			o.Sites = append(o.Sites, rel+":"+s.recv+"."+s.name)
		}
	}
	used := map[string]bool{}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && replaced[fd] {
			for _, fl := range []*ast.FieldList{fd.Recv, fd.Type.Params, fd.Type.Results} {
				if fl != nil {
					ast.Inspect(fl, func(n ast.Node) bool {
						if se, ok := n.(*ast.SelectorExpr); ok {
							if id, ok := se.X.(*ast.Ident); ok {
								used[id.Name] = true
							}
						}
						return true
					})
				}
			}
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok {
					used[id.Name] = true
				}
			}
			return true
		})
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		np := p
		if s, ok := shimImports[p]; ok && !opt["noshim:"+s] && shimExists(s) {
			np = modPath + "/internal/verifsym/" + s
		}
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		drop := len(replaced) > 0 && !used[name] && name != "_" && name != "."
		if np == p && !drop {
			continue
		}
		txt := strconv.Quote(np)
		if im.Name != nil && !drop {
			txt = im.Name.Name + " " + txt
		} else if drop {
			txt = "_ " + txt
		} else {
			txt = name + " " + txt
		}
		from := off(im.Path.Pos())
		if im.Name != nil {
			from = off(im.Name.Pos())
		}
		edits = append(edits, edit{from, off(im.Path.End()), txt})
	}
	if len(edits) == 0 {
		return src, false, nil
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var out bytes.Buffer
	last := 0
	for _, e := range edits {
		out.Write(src[last:e.from])
		out.WriteString(e.text)
		// keep line numbers
		if n := bytes.Count(src[e.from:e.to], []byte("\n")); n > 0 {
			out.WriteString(strings.Repeat("\n", n))
		}
		last = e.to
	}
	out.Write(src[last:])
	return out.Bytes(), true, nil
}

var verifDir string

func shimExists(s string) bool {
	_, err := os.Stat(filepath.Join(verifDir, "shim", s))
	return err == nil
}

// writeNative stores the overlay for the go command and returns the JSON path.
func (o *Overlay) writeNative(dir string, extra map[string][]byte) (string, error) {
	rep := map[string]string{}
	i := 0
	put := func(p string, b []byte) error {
		i++
		q := filepath.Join(dir, fmt.Sprintf("f%04d.go", i))
		if err := os.WriteFile(q, b, 0644); err != nil {
			return err
		}
		rep[p] = q
		return nil
	}
	for p, b := range o.files {
		if err := put(p, b); err != nil {
			return "", err
		}
	}
	for p, b := range extra {
		if err := put(p, b); err != nil {
			return "", err
		}
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	jp := filepath.Join(dir, "overlay.json")
	return jp, os.WriteFile(jp, j, 0644)
}
