package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// After an obligation has failed, the failing method is run, together with the one the reference generator makes of
// the same declaration (the last one whose code was proved), on many inputs. An input for which they differ is a
// failing input. Nothing here decides whether the property holds: that is what the obligation is for.

// refDir is a copy of the generator whose output was proved when the copy was made.
func refDir(home string) string { return filepath.Join(home, "vgo/ref") }

type replayer struct {
	c     *Corpus
	dir   string
	gen   string // the reference generator
	err   error
	until time.Time
	done  map[string]string // what was found for a type and its operations
	ints  []int64
	strs  []string
}

func (c *Corpus) newReplayer(budget time.Duration) *replayer {
	r := &replayer{c: c, dir: filepath.Join(c.work, "replay"), until: time.Now().Add(budget), done: map[string]string{}}
	r.gen, r.err = buildGenerator(c.home, refDir(c.home), filepath.Join(r.dir, "gen"))
	r.ints, r.strs = novel(c.home, c.repo)
	return r
}

// operations of the failing method
func opsOf(meth, kind, prop string) string {
	switch meth {
	case "UnmarshalJSON", "FillFromJSON", "validate":
		switch {
		case prop == "C06":
			return "p"
		case kind == "pool":
			return "dc"
		}
		return "d"
	case "MarshalJSON", "MarshalTo":
		if kind == "err" {
			return "ef"
		}
		return "e"
	case "IsZero":
		return "z"
	case "Reset":
		return "r"
	}
	return "dezr"
}

// find looks for an input of the failing unit.
func (r *replayer) find(prop string, v violation) string {
	u := v.unit
	if r.err != nil || u == nil || time.Now().After(r.until) {
		return ""
	}
	group := r.c.groupOf(u.pkg.path)
	if u.help {
		ops := "dez"
		if prop == "C06" {
			ops = "p"
		}
		for _, g := range append([]string{group}, "n_time_0", "r_000", "r_001", "n_elems") {
			for path, p := range r.c.parsed {
				if r.c.groupOf(path) != g || p.types == nil {
					continue
				}
				var ts []string
				for t := range p.annot {
					if p.methods[t+".FillFromJSON"] != nil || p.methods[t+".MarshalTo"] != nil {
						ts = append(ts, t)
					}
				}
				sort.Strings(ts)
				if s := r.search(g, p, ts, ops, 1500, nil); s != "" {
					return s
				}
			}
		}
		return ""
	}
	ops := opsOf(u.meth, v.f.Kind, prop)
	key := u.pkg.path + "." + u.typ + "/" + ops
	s, ok := r.done[key]
	if !ok {
		s = r.search(group, u.pkg, []string{u.typ}, ops, 6000, u.pkg.methods[u.typ+"."+u.meth])
		r.done[key] = s
	}
	return s
}

// search compares the code under check with that of the reference generator.
func (r *replayer) search(group string, p *Pkg, types []string, ops string, n int, fd *ast.FuncDecl) string {
	if len(types) == 0 || time.Now().After(r.until) {
		return ""
	}
	module := "fill/" + group
	if group == fillGroup {
		module = "fill"
	}
	sub := strings.TrimPrefix(strings.TrimPrefix(p.path, module), "/")
	cur, ref := filepath.Join(r.dir, "cur", group), filepath.Join(r.dir, "ref", group)
	if _, err := os.Stat(ref); err != nil {
		if exec.Command("mkdir", "-p", filepath.Dir(cur), filepath.Dir(ref)).Run() != nil ||
			exec.Command("cp", "-r", filepath.Join(r.c.work, "c", group), cur).Run() != nil {
			return ""
		}
		if _, msg := generateGroup(r.gen, r.c.sourceOf(group), ref, module, group != fillGroup); msg != "" {
			return ""
		}
		lib, err := os.ReadFile(filepath.Join(r.c.home, "vgo/gen/vrp.go.txt"))
		if err != nil {
			return ""
		}
		for _, d := range []string{cur, ref} {
			mod, _ := os.ReadFile(filepath.Join(r.c.repo, "test/tests/fill/go.mod"))
			mod = regexp.MustCompile(`(?m)^module .*$`).ReplaceAll(mod, []byte("module "+module))
			os.WriteFile(filepath.Join(d, "go.mod"), mod, 0o644)
			copyFile(filepath.Join(d, "go.sum"), filepath.Join(r.c.repo, "test/tests/fill/go.sum"))
			os.MkdirAll(filepath.Join(d, "vrp"), 0o755)
			os.WriteFile(filepath.Join(d, "vrp", "vrp.go"), lib, 0o644)
			failingEncoders(d, module)
		}
	}
	is, ss := append([]int64{}, r.ints...), append([]string{}, r.strs...)
	if fd != nil {
		li, ls := literalsOf(fd)
		is, ss = append(is, li...), append(ss, ls...)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\tvrpT \"testing\"\n\n\tvrp %q\n)\n\nfunc TestVrp(t *vrpT.T) {\n", p.types.Name(), module+"/vrp")
	for _, t := range types {
		fmt.Fprintf(&sb, "\tvrp.Run(func() interface{} { return new(%s) }, vrp.Config{Type: %q, Ops: %q, N: %d, Ints: %#v, Strs: %#v})\n", t, t, ops, n, is, ss)
	}
	sb.WriteString("}\n")
	file := filepath.Join(sub, "zz_vrp_test.go")
	run := func(d, out, show string) {
		os.WriteFile(filepath.Join(d, file), []byte(sb.String()), 0o644)
		cmd := exec.Command("go", "test", "-vet=off", "-count=1", "-run", "TestVrp", "-timeout", "60s", "./"+sub)
		cmd.Dir = d
		cmd.Env = append(goEnv(), "VRP_OUT="+out, "VRP_SEED="+strconv.Itoa(seed))
		if show != "" {
			cmd.Env = append(cmd.Env, "VRP_SHOW="+show)
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if cmd.Start() != nil {
			return
		}
		t := time.AfterFunc(120*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		cmd.Wait()
		t.Stop()
		os.Remove(filepath.Join(d, file))
	}
	outs := [2]string{filepath.Join(r.dir, "cur.out"), filepath.Join(r.dir, "ref.out")}
	both := func(show string) {
		for _, o := range outs {
			os.Remove(o)
		}
		parallel(2, func(i int) { run([]string{cur, ref}[i], outs[i], show) })
	}
	both("")
	a, b := readOutcomes(outs[0]), readOutcomes(outs[1])
	if len(b.order) == 0 || len(a.order) == 0 {
		return ""
	}
	best, size := "", 1<<60
	for _, id := range b.order {
		x, ok := a.m[id]
		if !ok {
			if best == "" {
				best = id // the code under check ended the process here
			}
			break
		}
		if y := b.m[id]; x.hash != y.hash && y.size < size {
			best, size = id, y.size
		}
	}
	if best == "" {
		return ""
	}
	both(best)
	x, _ := os.ReadFile(outs[0])
	y, _ := os.ReadFile(outs[1])
	xs, ys := string(x), string(y)
	cut := func(s, key string) string {
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, key) {
				return strings.TrimSpace(l[len(key):])
			}
		}
		return "the process ends"
	}
	if xs == ys {
		return ""
	}
	what := map[byte]string{'e': "MarshalJSON", 'f': "MarshalJSON", 'd': "UnmarshalJSON", 'p': "UnmarshalJSON", 'c': "UnmarshalJSON", 'z': "IsZero", 'r': "Reset"}
	k := strings.Split(best, "/")
	return fmt.Sprintf("failing input for %s.%s.%s\n  given:    %s\n  gives:    %s\n  expected: %s\n", strings.TrimPrefix(p.path, "fill/"), k[0], what[k[1][0]], cut(ys, "input:"), cut(xs, "outcome:"), cut(ys, "outcome:"))
}

type runOutcome struct {
	hash string
	size int
}

type outcomeList struct {
	order []string
	m     map[string]runOutcome
}

func readOutcomes(file string) outcomeList {
	o := outcomeList{m: map[string]runOutcome{}}
	f, err := os.Open(file)
	if err != nil {
		return o
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) == 3 {
			n, _ := strconv.Atoi(w[2])
			o.order = append(o.order, w[0])
			o.m[w[0]] = runOutcome{w[1], n}
		}
	}
	return o
}

// literalsOf: the constants of a function, as values worth trying.
func literalsOf(fd *ast.FuncDecl) (is []int64, ss []string) {
	seen := map[string]bool{}
	ast.Inspect(fd, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && !seen[l.Value] && len(seen) < 80 {
			seen[l.Value] = true
			switch l.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
					is = append(is, v)
				}
			case token.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) < 100 && !strings.Contains(s, `":`) {
					ss = append(ss, s)
				}
			case token.CHAR:
				if s, err := strconv.Unquote(l.Value); err == nil {
					ss = append(ss, s)
				}
			}
		}
		return true
	})
	return
}

// failingEncoders lets the encoders of the copy fail on demand.
func failingEncoders(dir, module string) {
	filepath.WalkDir(dir, func(path string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || filepath.Base(filepath.Dir(path)) == "vrp" {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			return nil
		}
		out, last := "", 0
		add := func(p token.Pos, s string) {
			o := fs.Position(p).Offset
			out, last = out+string(src[last:o])+s, o
		}
		for _, x := range f.Decls {
			fd, ok := x.(*ast.FuncDecl)
			if !ok || fd.Recv == nil || fd.Body == nil || fd.Name.Name != "MarshalTo" || fd.Type.Results.NumFields() != 1 {
				continue
			}
			if last == 0 {
				add(f.Name.End(), fmt.Sprintf("\n\nimport vrpFail %q\n", module+"/vrp"))
			}
			add(fd.Body.Lbrace+1, "\n\tif vrpFail.Nested() {\n\t\treturn vrpFail.ErrNested\n\t}\n")
		}
		if last > 0 {
			os.WriteFile(path, []byte(out+string(src[last:])), 0o644)
		}
		return nil
	})
}
