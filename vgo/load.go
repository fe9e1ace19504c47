package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type listed struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Standard   bool
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

// goList compiles the packages matched by patterns in dir and returns them with their dependencies.
func goList(dir string, patterns ...string) (map[string]*listed, error) {
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Standard,Error,DepsErrors"}, patterns...)
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	var eb bytes.Buffer
	c.Stderr = &eb
	out, err := c.Output()
	if err != nil && len(out) == 0 {
		return nil, fmt.Errorf("go list: %v: %s", err, eb.String())
	}
	m := map[string]*listed{}
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		var l listed
		if err := d.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		m[l.ImportPath] = &l
	}
	return m, nil
}

// Loader type-checks packages against the export data of their dependencies.
type Loader struct {
	pkgs map[string]*listed
}

// load parses and type-checks the package with the given import path. It is safe for concurrent use.
func (l *Loader) load(path string) (*Pkg, error) {
	li := l.pkgs[path]
	if li == nil {
		return nil, fmt.Errorf("package %s not found", path)
	}
	p := &Pkg{path: path, fset: token.NewFileSet(), funcs: map[string]*ast.FuncDecl{}, methods: map[string]*ast.FuncDecl{}, src: map[string]string{}}
	for _, f := range li.GoFiles {
		fn := filepath.Join(li.Dir, f)
		af, err := parser.ParseFile(p.fset, fn, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return p, err
		}
		p.src[f] = fn
		p.files = append(p.files, af)
	}
	imp := importer.ForCompiler(p.fset, "gc", func(ip string) (io.ReadCloser, error) {
		d := l.pkgs[ip]
		if d == nil || d.Export == "" {
			return nil, fmt.Errorf("no export data for %s", ip)
		}
		return os.Open(d.Export)
	})
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: imp, Error: func(err error) { p.errs = append(p.errs, err) }, GoVersion: "go1.18"}
	p.types, _ = conf.Check(path, p.fset, p.files, p.info)
	p.index()
	p.register()
	if len(p.errs) > 0 {
		return p, p.errs[0]
	}
	return p, nil
}

// fileOf is the base name of the file that holds the declaration.
func (p *Pkg) fileOf(n ast.Node) string { return filepath.Base(p.fset.Position(n.Pos()).Filename) }

func generatedFile(f string) bool { return strings.HasSuffix(f, ".out.go") || f == "valyjson_utils.go" }
