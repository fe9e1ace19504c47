package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Corpus is what the generator of the repository under test makes of the type declarations.
type Corpus struct {
	repo, home, work string
	fset             *token.FileSet
	dirs             map[string]string // import path -> directory
	imp              types.Importer
	impMu            sync.Mutex
	extern           map[string]*listed
	pkgs             map[string]*Pkg
	genErr           map[string]string // group -> why generation failed
	groups           []string
	derived          map[string]string // group -> directory of the declarations made for this run
	only             func(group string) bool
	parsed           map[string]*Pkg
	loading          map[string]*sync.Once
	loadErr          map[string]error
	mu               sync.Mutex
}

var annotRe = regexp.MustCompile(`(?m)^[ \t]*//[/ \t]*json:`)

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

func run(dir string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = goEnv()
	out, err := c.CombinedOutput()
	return string(out), err
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0o644)
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

const fillGroup = "repo"

// build generates the code of every corpus group from the generator in repo, and parses it.
func (c *Corpus) build() error {
	gen, err := buildGenerator(c.home, c.repo, filepath.Join(c.work, "gen"))
	if err != nil {
		return err
	}

	// the declarations
	ents, err := os.ReadDir(filepath.Join(c.home, "corpus"))
	if err != nil {
		return err
	}
	for _, e := range ents {
		if e.IsDir() && (c.only == nil || c.only(e.Name())) {
			c.groups = append(c.groups, e.Name())
		}
	}
	// declarations for constants that are new in the generator
	adir := filepath.Join(c.work, "x")
	derived := map[string]bool{}
	for _, g := range c.adaptive(adir) {
		if c.only == nil || c.only(g) {
			c.groups = append(c.groups, g)
			derived[g] = true
		}
	}
	if c.only == nil || c.only(fillGroup) {
		c.groups = append(c.groups, fillGroup)
	}
	c.genErr, c.dirs, c.derived, c.fset = map[string]string{}, map[string]string{}, map[string]string{}, token.NewFileSet()
	parallel(len(c.groups), func(i int) {
		g := c.groups[i]
		module := "fill/" + g
		if g == fillGroup {
			module = "fill"
		}
		if derived[g] {
			c.mu.Lock()
			c.derived[g] = filepath.Join(adir, g)
			c.mu.Unlock()
		}
		to := filepath.Join(c.work, "c", g)
		files, msg := generateGroup(gen, c.sourceOf(g), to, module, g != fillGroup)
		c.mu.Lock()
		defer c.mu.Unlock()
		if msg != "" {
			c.genErr[g] = msg
		}
		for _, f := range files {
			dir := filepath.Dir(f)
			ip := module
			if dir != "." {
				ip += "/" + dir
			}
			c.dirs[ip] = filepath.Join(to, dir)
		}
	})
	return c.parse()
}

// buildGenerator builds the generator of the repository.
func buildGenerator(home, repo, dir string) (string, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	src, err := os.ReadFile(filepath.Join(home, "vgo/gen/main.go.txt"))
	if err != nil {
		return "", err
	}
	if err = os.WriteFile(filepath.Join(dir, "main.go"), src, 0o644); err != nil {
		return "", err
	}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	mod = regexp.MustCompile(`(?m)^module .*$`).ReplaceAll(mod, []byte("module vgen"))
	mod = append(mod, []byte("\nrequire github.com/iv-menshenin/valyjson v0.0.0\n\nreplace github.com/iv-menshenin/valyjson => "+repo+"\n")...)
	os.WriteFile(filepath.Join(dir, "go.mod"), mod, 0o644)
	copyFile(filepath.Join(dir, "go.sum"), filepath.Join(repo, "go.sum"))
	if out, err := run(dir, "go", "build", "-o", "vgen", "."); err != nil {
		return "", fmt.Errorf("the generator does not build: %s", out)
	}
	return filepath.Join(dir, "vgen"), nil
}

// sourceOf is where the declarations of a group are.
func (c *Corpus) sourceOf(g string) string {
	if g == fillGroup {
		return filepath.Join(c.repo, "test/tests/fill")
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if d := c.derived[g]; d != "" {
		return d
	}
	return filepath.Join(c.home, "corpus", g)
}

// generateGroup copies the declarations and runs the generator on those that are annotated.
func generateGroup(gen, from, to, module string, withTests bool) (files []string, msg string) {
	var tests []string
	filepath.WalkDir(from, func(p string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || generatedFile(filepath.Base(p)) {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		if strings.HasSuffix(p, "_test.go") {
			// the generator sees the test files of the corpus, the verifier does not
			if withTests && copyFile(filepath.Join(to, rel), p) == nil {
				tests = append(tests, filepath.Join(to, rel))
			}
			return nil
		}
		if copyFile(filepath.Join(to, rel), p) == nil {
			files = append(files, rel)
		}
		return nil
	})
	sort.Strings(files)
	os.WriteFile(filepath.Join(to, "go.mod"), []byte("module "+module+"\n\ngo 1.18\n"), 0o644)
	for _, f := range files {
		text, _ := os.ReadFile(filepath.Join(to, f))
		if !annotRe.Match(text) {
			continue
		}
		cmd := exec.Command(gen, f, strings.TrimSuffix(f, ".go")+".out.go")
		cmd.Dir = to
		if out, err := cmd.CombinedOutput(); err != nil {
			msg = fmt.Sprintf("%s: %v: %s", f, err, firstLines(string(out), 5))
		}
	}
	os.Remove(filepath.Join(to, "go.mod"))
	for _, t := range tests {
		os.Remove(t)
	}
	return
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// parse reads all packages and finds what they import from outside.
func (c *Corpus) parse() error {
	c.parsed, c.loading, c.loadErr = map[string]*Pkg{}, map[string]*sync.Once{}, map[string]error{}
	var paths []string
	for p := range c.dirs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	ext := map[string]bool{"github.com/mailru/easyjson/jwriter": true, "github.com/valyala/fastjson": true}
	parallel(len(paths), func(i int) {
		ip := paths[i]
		p := &Pkg{path: ip, dir: c.dirs[ip], fset: c.fset, funcs: map[string]*ast.FuncDecl{}, methods: map[string]*ast.FuncDecl{}, src: map[string]string{}}
		ents, _ := os.ReadDir(p.dir)
		for _, e := range ents {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			fn := filepath.Join(p.dir, e.Name())
			af, err := parser.ParseFile(c.fset, fn, nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				p.errs = append(p.errs, err)
				continue
			}
			p.src[e.Name()] = fn
			p.files = append(p.files, af)
			c.mu.Lock()
			for _, im := range af.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				if c.dirs[path] == "" {
					ext[path] = true
				}
			}
			c.mu.Unlock()
		}
		p.index()
		c.mu.Lock()
		c.parsed[ip] = p
		c.loading[ip] = &sync.Once{}
		c.mu.Unlock()
	})
	// export data of what lies outside
	mod := filepath.Join(c.work, "ext")
	fillMod := filepath.Join(c.repo, "test/tests/fill")
	if err := copyFile(filepath.Join(mod, "go.mod"), filepath.Join(fillMod, "go.mod")); err != nil {
		return err
	}
	copyFile(filepath.Join(mod, "go.sum"), filepath.Join(fillMod, "go.sum"))
	var names []string
	for n := range ext {
		names = append(names, n)
	}
	sort.Strings(names)
	ls, err := goList(mod, names...)
	if err != nil {
		return err
	}
	c.extern = ls
	c.imp = importer.ForCompiler(c.fset, "gc", func(ip string) (io.ReadCloser, error) {
		d := ls[ip]
		if d == nil || d.Export == "" {
			return nil, fmt.Errorf("no export data for %s", ip)
		}
		return os.Open(d.Export)
	})
	for _, n := range names {
		if n != "C" && n != "unsafe" {
			c.imp.Import(n)
		}
	}
	return nil
}

// Import resolves an import of a corpus package.
func (c *Corpus) Import(path string) (*types.Package, error) {
	if c.dirs[path] != "" {
		p, err := c.load(path)
		if p == nil || p.types == nil {
			return nil, err
		}
		return p.types, nil
	}
	c.impMu.Lock()
	defer c.impMu.Unlock()
	return c.imp.Import(path)
}

// load type-checks a corpus package.
func (c *Corpus) load(path string) (*Pkg, error) {
	p := c.parsed[path]
	if p == nil {
		return nil, fmt.Errorf("package %s not found", path)
	}
	c.loading[path].Do(func() { p.check(c) })
	if len(p.errs) > 0 {
		return p, p.errs[0]
	}
	return p, nil
}

func (p *Pkg) check(imp types.Importer) {
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: imp, Error: func(err error) { p.errs = append(p.errs, err) }, GoVersion: "go1.18"}
	p.types, _ = conf.Check(p.path, p.fset, p.files, p.info)
	p.register()
}

// index finds the functions, methods and annotations of a package.
func (p *Pkg) index() {
	p.strict, p.annot, p.decls = map[string]bool{}, map[string][]string{}, map[string]*ast.TypeSpec{}
	for _, f := range p.files {
		for _, d := range f.Decls {
			switch fd := d.(type) {
			case *ast.FuncDecl:
				if fd.Recv == nil {
					p.funcs[fd.Name.Name] = fd
					continue
				}
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					p.methods[id.Name+"."+fd.Name.Name] = fd
				}
			case *ast.GenDecl:
				if fd.Tok != token.TYPE {
					continue
				}
				for _, s := range fd.Specs {
					ts := s.(*ast.TypeSpec)
					p.decls[ts.Name.Name] = ts
					a := annotation(fd.Doc)
					if len(a) == 0 {
						a = annotation(ts.Doc)
					}
					if len(a) > 0 {
						p.annot[ts.Name.Name] = a
					}
				}
			}
		}
	}
	// the element type of a tagged list inherits its tags
	for again := true; again; {
		again = false
		for n, ts := range p.decls {
			if at, ok := ts.Type.(*ast.ArrayType); ok && len(p.annot[n]) > 0 {
				if id, ok := at.Elt.(*ast.Ident); ok && p.decls[id.Name] != nil && len(p.annot[id.Name]) == 0 {
					p.annot[id.Name] = p.annot[n]
					again = true
				}
			}
		}
	}
	for n, a := range p.annot {
		for _, x := range a {
			if x == "strict" {
				p.strict[n] = true
			}
		}
	}
}

// annotation reads the words after //json: in a comment.
func annotation(doc *ast.CommentGroup) (out []string) {
	if doc == nil {
		return nil
	}
	for _, l := range doc.List {
		s := strings.TrimLeft(l.Text, "/ \t")
		if !strings.HasPrefix(s, "json:") {
			continue
		}
		for _, w := range strings.Split(s[len("json:"):], ",") {
			if w = strings.ToLower(strings.TrimSpace(w)); w != "" {
				out = append(out, w)
			}
		}
	}
	return
}

func has(a []string, w string) bool {
	for _, x := range a {
		if x == w {
			return true
		}
	}
	return false
}

// text renders a node of the package without position information.
func (p *Pkg) text(n any) string {
	var b bytes.Buffer
	if fd, ok := n.(*ast.FuncDecl); ok && fd.Doc != nil {
		c := *fd
		c.Doc = nil
		n = &c
	}
	if err := format.Node(&b, p.fset, n); err != nil {
		return fmt.Sprintf("!%v", err)
	}
	return b.String()
}
