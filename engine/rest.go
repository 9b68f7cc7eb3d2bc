package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// genRest re-exports, in a model package, every exported name of the standard
// package it stands for that the model does not define itself, so that code
// may use the whole package.
func genRest(shimDir, importPath string) []byte {
	src := filepath.Join(goRoot123, "src", importPath)
	if _, err := os.Stat(src); err != nil {
		return nil
	}
	own := map[string]bool{}
	pkgName := ""
	fs := token.NewFileSet()
	ents, _ := os.ReadDir(shimDir)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fs, filepath.Join(shimDir, e.Name()), nil, 0)
		if err != nil {
			continue
		}
		pkgName = f.Name.Name
		eachDecl(f, func(kind, name string) { own[name] = true })
	}
	ctx := build.Default
	ctx.GOROOT = goRoot123
	ctx.CgoEnabled = false
	ctx.GOOS, ctx.GOARCH = "linux", "amd64"
	ctx.ReleaseTags = nil
	for i := 1; i <= 23; i++ {
		ctx.ReleaseTags = append(ctx.ReleaseTags, fmt.Sprintf("go1.%d", i))
	}
	ents, _ = os.ReadDir(src)
	var lines []string
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(src, n); err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(fs, filepath.Join(src, n), nil, 0)
		if err != nil {
			continue
		}
		eachDecl(f, func(kind, name string) {
			if !ast.IsExported(name) || own[name] {
				return
			}
			own[name] = true
			switch kind {
			case "type":
				lines = append(lines, fmt.Sprintf("type %s = real.%s", name, name))
			case "const":
				lines = append(lines, fmt.Sprintf("const %s = real.%s", name, name))
			default:
				lines = append(lines, fmt.Sprintf("var %s = real.%s", name, name))
			}
		})
	}
	if len(lines) == 0 {
		return nil
	}
	sort.Strings(lines)
	return []byte(fmt.Sprintf("package %s\n\nimport real %q\n\n%s\n", pkgName, importPath, strings.Join(lines, "\n")))
}

func eachDecl(f *ast.File, fn func(kind, name string)) {
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil && x.Type.TypeParams == nil {
				fn("func", x.Name.Name)
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.TypeSpec:
					if y.TypeParams == nil {
						fn("type", y.Name.Name)
					}
				case *ast.ValueSpec:
					k := "var"
					if x.Tok == token.CONST {
						k = "const"
					}
					for _, n := range y.Names {
						fn(k, n.Name)
					}
				}
			}
		}
	}
}

var restMu sync.Mutex
var restCache = map[string][]byte{}

func rest(shimDir, importPath string) []byte {
	restMu.Lock()
	defer restMu.Unlock()
	if b, ok := restCache[importPath]; ok {
		return b
	}
	b := genRest(shimDir, importPath)
	restCache[importPath] = b
	return b
}
