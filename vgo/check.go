package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Unit is one generated method to verify.
type Unit struct {
	pkg   *Pkg
	group string
	typ   string
	meth  string
	key   string
	same  []*Unit // units with the same text
	named *types.Named
	help  bool // a function of the support file
	res   *UnitResult
}

type UnitResult struct {
	fails  []Failure
	unsup  string
	obls   int
	ok     int
	steps  int
	dev    []string // id@member
	wall   time.Duration
	sample string
}

func (u *Unit) site() string {
	if u.help {
		return "valyjson_utils.go." + u.meth
	}
	return strings.TrimPrefix(u.pkg.path, "fill/") + "." + u.typ + "." + u.meth
}

// verify decides the contract of the unit.
func (u *Unit) verify(t *Task) {
	if u.help {
		t.verifyHelper(u.meth)
		return
	}
	t.verifyMethod(u.named, u.meth)
}

var decoders = []string{"UnmarshalJSON", "FillFromJSON", "validate"}
var encoders = []string{"MarshalJSON", "MarshalTo", "IsZero", "Reset"}

// expectedMethods: what the annotation of the type asks for.
func (p *Pkg) expectedMethods(typ string) (out []string) {
	a := p.annot[typ]
	if len(a) == 0 || has(a, "custom") {
		return nil
	}
	if !has(a, "encode") {
		for _, m := range decoders {
			if m == "validate" {
				if _, ok := p.decls[typ].Type.(*ast.StructType); !ok || has(a, "transit") {
					continue
				}
			}
			out = append(out, m)
		}
	}
	if !has(a, "decode") {
		out = append(out, encoders...)
	}
	return
}

// closure renders everything the contract of a type depends on.
func (p *Pkg) closure(c *Corpus, typ string) string {
	var sb strings.Builder
	seen := map[string]bool{}
	var named func(n *types.Named)
	var rec func(t types.Type)
	seenT := map[types.Type]bool{}
	named = func(n *types.Named) {
		if n.Obj().Pkg() == nil {
			return
		}
		ip := n.Obj().Pkg().Path()
		q := c.parsed[ip]
		if q == nil {
			return
		}
		k := ip + "." + n.Obj().Name()
		if seen[k] {
			return
		}
		seen[k] = true
		d := q.decls[n.Obj().Name()]
		if ip != p.path {
			sb.WriteString(ip + ".")
		}
		if d != nil {
			fmt.Fprintf(&sb, "%s %v\n", q.text(d), q.annot[n.Obj().Name()])
		}
		var ms []string
		for i := 0; i < n.NumMethods(); i++ {
			ms = append(ms, n.Method(i).Name())
		}
		sort.Strings(ms)
		fmt.Fprintf(&sb, "%v\n", ms)
		if q.info != nil && d != nil {
			rec(q.info.Types[d.Type].Type)
		}
		rec(n.Underlying())
	}
	rec = func(t types.Type) {
		if t == nil || seenT[t] {
			return
		}
		seenT[t] = true
		switch x := t.(type) {
		case *types.Named:
			named(x)
		case *types.Pointer:
			rec(x.Elem())
		case *types.Slice:
			rec(x.Elem())
		case *types.Array:
			rec(x.Elem())
		case *types.Map:
			rec(x.Key())
			rec(x.Elem())
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				rec(x.Field(i).Type())
			}
		}
	}
	if tn, ok := p.types.Scope().Lookup(typ).(*types.TypeName); ok {
		if n := namedOf(tn.Type()); n != nil {
			named(n)
		}
	}
	return sb.String()
}

// helpers renders the package-level functions of the package.
func (p *Pkg) helpers() string {
	var ns []string
	for n := range p.funcs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var sb strings.Builder
	for _, n := range ns {
		sb.WriteString(p.text(p.funcs[n]))
		sb.WriteByte('\n')
	}
	// package-level declarations other than types, and all of the support file
	for _, f := range p.files {
		own := p.fileOf(f) == "valyjson_utils.go"
		for _, d := range f.Decls {
			if g, ok := d.(*ast.FuncDecl); ok && own && g.Recv != nil {
				sb.WriteString(p.text(g))
				sb.WriteByte('\n')
			}
			if g, ok := d.(*ast.GenDecl); ok && own && g.Tok.String() == "type" {
				sb.WriteString(p.text(g))
				sb.WriteByte('\n')
			}
			if g, ok := d.(*ast.GenDecl); ok && g.Tok.String() != "type" && g.Tok.String() != "import" {
				sb.WriteString(p.text(g))
				sb.WriteByte('\n')
			}
		}
	}
	return sb.String()
}

// compileFailure is a package that could not be generated or does not compile.
type compileFailure struct {
	group, what, detail string
	typ, meth           string
}

// prepare type-checks all packages and lists the methods; identical ones are verified once.
func (c *Corpus) prepare(wanted func(p *Pkg, typ, meth string) bool) (units []*Unit, bad []compileFailure) {
	var paths []string
	for p := range c.dirs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	type pr struct {
		us  []*Unit
		bad []compileFailure
	}
	res := make([]pr, len(paths))
	parallel(len(paths), func(i int) {
		p, err := c.load(paths[i])
		g := c.groupOf(paths[i])
		if err != nil {
			res[i].bad = append(res[i].bad, compileFailure{group: g, what: "does not compile", detail: err.Error()})
			return
		}
		help := p.helpers()
		for _, n := range helperNames {
			if fd := p.funcs[n]; fd != nil && fd.Body != nil && wanted(p, "", n) {
				res[i].us = append(res[i].us, &Unit{pkg: p, group: g, meth: n, help: true, key: n + "\x00" + help})
			}
		}
		var tns []string
		for n := range p.decls {
			tns = append(tns, n)
		}
		sort.Strings(tns)
		for _, n := range tns {
			exp := p.expectedMethods(n)
			for _, m := range append(append([]string{}, decoders...), encoders...) {
				fd := p.methods[n+"."+m]
				gen := fd != nil && strings.HasSuffix(p.fileOf(fd), ".out.go")
				if has(exp, m) && fd == nil {
					res[i].bad = append(res[i].bad, compileFailure{group: g, what: "method missing", detail: p.path + "." + n + " has no method " + m, typ: n, meth: m})
				}
				if !has(exp, m) && gen {
					res[i].bad = append(res[i].bad, compileFailure{group: g, what: "method not asked for", detail: p.path + "." + n + " has a generated method " + m, typ: n, meth: m})
				}
				if !gen || !wanted(p, n, m) {
					continue
				}
				h := sha256.New()
				fmt.Fprintf(h, "%s\x00%s\x00%s\x00%s", m, p.closure(c, n), p.text(fd), help)
				tn, _ := p.types.Scope().Lookup(n).(*types.TypeName)
				if tn == nil || namedOf(tn.Type()) == nil {
					continue
				}
				res[i].us = append(res[i].us, &Unit{pkg: p, group: g, typ: n, meth: m, key: string(h.Sum(nil)), named: namedOf(tn.Type())})
			}
		}
	})
	for _, g := range c.groups {
		if e := c.genErr[g]; e != "" {
			bad = append(bad, compileFailure{group: g, what: "generation fails", detail: e})
		}
	}
	byKey := map[string]*Unit{}
	for _, r := range res {
		for _, b := range r.bad {
			if c.genErr[b.group] == "" {
				bad = append(bad, b)
			}
		}
		for _, u := range r.us {
			if o := byKey[u.key]; o != nil {
				o.same = append(o.same, u)
				continue
			}
			byKey[u.key] = u
			units = append(units, u)
		}
	}
	return
}

func (c *Corpus) groupOf(path string) string {
	if path == "fill" {
		return fillGroup
	}
	s := strings.SplitN(strings.TrimPrefix(path, "fill/"), "/", 2)[0]
	for _, g := range c.groups {
		if g == s {
			return g
		}
	}
	return fillGroup
}

// verifyAll runs the verifier on every unit.
// crossCheck: what z3 finds unsatisfiable is also put to cvc5.
var crossCheck bool

// crossUntil: the second opinion is asked for until then.
var crossUntil time.Time

// crossWith makes the solver the second opinion of the task.
func (t *Task) crossWith(s **Solver) {
	if *s == nil {
		return
	}
	if time.Now().After(crossUntil) {
		atomic.AddInt64(&statNotCrossed, 1)
		return
	}
	atomic.AddInt64(&statCrossed, 1)
	if (*s).dead {
		(*s).Close()
		n, err := NewSolver("cvc5")
		if err != nil {
			*s = nil
			return
		}
		*s = n
	}
	(*s).Reset(t.b)
	t.sol2 = *s
}

func verifyAll(units []*Unit, allow func(u *Unit) map[string]bool, progress bool) error {
	n := runtime.NumCPU()
	var next int64 = -1
	var wg sync.WaitGroup
	var mu sync.Mutex
	var firstErr error
	// long ones first
	order := make([]*Unit, len(units))
	copy(order, units)
	sort.SliceStable(order, func(i, j int) bool { return unitSize(order[i]) > unitSize(order[j]) })
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sol, err := NewSolver("z3")
			var second *Solver
			if err == nil && crossCheck {
				second, err = NewSolver("cvc5")
			}
			if err != nil {
				mu.Lock()
				firstErr = err
				mu.Unlock()
				return
			}
			defer func() { sol.Close(); second.Close() }()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(order) {
					return
				}
				u := order[i]
				t := newTask(u.pkg, sol)
				t.crossWith(&second)
				if a := allow(u); a != nil {
					t.kf = a
				}
				t0 := time.Now()
				un := t.run(func() { u.verify(t) })
				if sol.dead {
					sol.Close()
					if sol, err = NewSolver("z3"); err != nil {
						mu.Lock()
						firstErr = err
						mu.Unlock()
						return
					}
					t = newTask(u.pkg, sol)
					if a := allow(u); a != nil {
						t.kf = a
					}
					un = t.run(func() { u.verify(t) })
				}
				r := &UnitResult{fails: t.fails, unsup: un, obls: len(t.obls), steps: t.steps, wall: time.Since(t0)}
				for _, o := range t.obls {
					if o.OK {
						r.ok++
						if r.sample == "" {
							r.sample = o.Name
						}
					}
				}
				for k := range t.devUsed {
					r.dev = append(r.dev, k)
				}
				sort.Strings(r.dev)
				u.res = r
				if progress && r.wall > 5*time.Second {
					fmt.Fprintf(os.Stderr, "slow: %s %v\n", u.site(), r.wall.Round(time.Millisecond))
				}
			}
		}()
	}
	wg.Wait()
	return firstErr
}

func unitSize(u *Unit) int {
	fd := u.pkg.methods[u.typ+"."+u.meth]
	if u.help {
		return 0
	}
	n := int(fd.End() - fd.Pos())
	if u.meth == "validate" {
		n *= 20
	}
	return n
}

// ---------------------------------------------------------------- known findings

type KnownFile struct {
	Findings []Finding `json:"findings"`
}

type Finding struct {
	ID         string              `json:"id"`
	Properties []string            `json:"properties"`
	What       string              `json:"what"`
	Sites      map[string][]string `json:"sites"` // package -> "Type.Method member"
	Fixed      string              `json:"fixed,omitempty"`
}

func loadKnown(home string) (*KnownFile, error) {
	var k KnownFile
	b, err := os.ReadFile(filepath.Join(home, "known_findings.json"))
	if os.IsNotExist(err) {
		return &k, nil
	}
	if err != nil {
		return nil, err
	}
	return &k, json.Unmarshal(b, &k)
}

// sites maps "pkg.Type.Method" to the admitted id@member.
func (k *KnownFile) sites() map[string]map[string]bool {
	m := map[string]map[string]bool{}
	for _, f := range k.Findings {
		for p, ss := range f.Sites {
			for _, s := range ss {
				w := strings.SplitN(s, " ", 2)
				mem := ""
				if len(w) > 1 {
					mem = w[1]
				}
				site := p + "." + w[0]
				if m[site] == nil {
					m[site] = map[string]bool{}
				}
				m[site][f.ID+"@"+mem] = true
			}
		}
	}
	return m
}

// ---------------------------------------------------------------- dev commands

func tempWork() string {
	d, err := os.MkdirTemp("", "vgo-")
	if err != nil {
		panic(err)
	}
	return d
}

func homeDir() string {
	if h := os.Getenv("VGO_HOME"); h != "" {
		return h
	}
	return "/verif"
}

func repoDir() string {
	if h := os.Getenv("VGO_REPO"); h != "" {
		return h
	}
	return "/repo"
}

// scanMain verifies everything (dev): vgo scan [group-prefix] [method,...] [strictly]
func scanMain(args []string) {
	defer startProf()()
	pre, meths := "", ""
	mode := "dev"
	if len(args) > 0 {
		pre = args[0]
	}
	if len(args) > 1 {
		meths = args[1]
	}
	if len(args) > 2 {
		mode = args[2]
	}
	t0 := time.Now()
	c := &Corpus{repo: repoDir(), home: homeDir(), work: tempWork()}
	if os.Getenv("VGO_KEEP") == "" {
		defer os.RemoveAll(c.work)
	} else {
		fmt.Println("work", c.work)
	}
	c.only = func(g string) bool { return strings.HasPrefix(g, pre) }
	if err := c.build(); err != nil {
		fmt.Println(err)
		return
	}
	fmt.Printf("generated in %v\n", time.Since(t0))
	units, bad := c.prepare(func(p *Pkg, typ, meth string) bool { return meths == "" || has(strings.Split(meths, ","), meth) })
	for _, b := range bad {
		fmt.Println("BAD", b)
	}
	fmt.Printf("%d units (prepared at %v)\n", len(units), time.Since(t0))
	var sites map[string]map[string]bool
	if mode == "known" {
		k, err := loadKnown(c.home)
		if err != nil {
			fmt.Println(err)
			return
		}
		sites = k.sites()
	}
	err := verifyAll(units, func(u *Unit) map[string]bool {
		switch mode {
		case "dev", "findings":
			return map[string]bool{"*": true}
		case "known":
			return allowed(sites, u)
		}
		return nil
	}, true)
	if err != nil {
		fmt.Println(err)
		return
	}
	var tot, ok, uns, failed int
	devs := map[string]int{}
	var wall time.Duration
	for _, u := range units {
		r := u.res
		tot += r.obls
		ok += r.ok
		wall += r.wall
		if r.unsup != "" {
			uns++
			fmt.Printf("UNSUPPORTED %s: %s (+%d same)\n", u.site(), r.unsup, len(u.same))
		}
		if len(r.fails) > 0 {
			failed++
		}
		for _, f := range r.fails {
			fmt.Printf("FAIL %s: %s [%s] %s (+%d same)\n", u.site(), f.Name, f.Kind, f.Detail, len(u.same))
		}
		for _, d := range r.dev {
			devs[strings.SplitN(d, "@", 2)[0]]++
		}
	}
	if os.Getenv("VGO_REPLAY") != "" && failed > 0 { // development: failing inputs of the first functions that fail
		rp := c.newReplayer(4 * time.Minute)
		n := 0
		for _, u := range units {
			for _, f := range u.res.fails {
				prop := ""
				if f.Kind == "path" {
					prop = "C06"
				}
				in := strings.TrimSpace(rp.find(prop, violation{unit: u, f: f}))
				fmt.Printf("REPLAY %s [%s] %s\n", u.site(), f.Kind, strings.ReplaceAll(in, "\n", " | "))
				if n++; n > 8 {
					break
				}
			}
		}
	}
	if os.Getenv("VGO_STAT") != "" {
		fmt.Println(atomic.LoadInt64(&statQueries), time.Duration(atomic.LoadInt64(&statSolverNs)))
	}
	fmt.Printf("%d units, %d/%d obligations, %d units failing, %d unsupported, cpu %v, wall %v\n", len(units), ok, tot, failed, uns, wall.Round(time.Second), time.Since(t0).Round(time.Second))
	fmt.Println(devs)
	if mode == "findings" {
		writeFindings(c, units)
	}
}

func allowed(sites map[string]map[string]bool, u *Unit) map[string]bool {
	m := map[string]bool{}
	for _, x := range append([]*Unit{u}, u.same...) {
		for k := range sites[x.site()] {
			m[k] = true
		}
	}
	return m
}

func writeFindings(c *Corpus, units []*Unit) {
	all := map[string]map[string]map[string]bool{}
	for _, u := range units {
		for _, x := range append([]*Unit{u}, u.same...) {
			for _, d := range u.res.dev {
				w := strings.SplitN(d, "@", 2)
				p := strings.TrimPrefix(x.pkg.path, "fill/")
				if all[w[0]] == nil {
					all[w[0]] = map[string]map[string]bool{}
				}
				if all[w[0]][p] == nil {
					all[w[0]][p] = map[string]bool{}
				}
				all[w[0]][p][strings.TrimSpace(x.typ+"."+x.meth+" "+w[1])] = true
			}
		}
	}
	old, _ := loadKnown(c.home)
	var k KnownFile
	for _, f := range old.Findings {
		if f.Fixed != "" {
			k.Findings = append(k.Findings, f)
		}
	}
	for _, d := range deviations {
		if all[d.id] == nil {
			continue
		}
		f := Finding{ID: d.id, Properties: d.props, What: d.what, Sites: map[string][]string{}}
		for p, ss := range all[d.id] {
			for s := range ss {
				f.Sites[p] = append(f.Sites[p], s)
			}
			sort.Strings(f.Sites[p])
		}
		k.Findings = append(k.Findings, f)
		delete(all, d.id)
	}
	for id := range all {
		fmt.Println("UNDESCRIBED deviation", id)
	}
	b, _ := json.MarshalIndent(k, "", " ")
	os.WriteFile(filepath.Join(c.home, "known_findings.json"), append(b, '\n'), 0o644)
}

type deviation struct {
	id    string
	props []string
	what  string
}

var deviations = []deviation{
	{"range-elements", []string{"C02"}, "the numbers in a list or map are not checked against the limits of their type: out-of-range values are stored truncated"},
	{"range-below-minimum", []string{"C02"}, "only the upper limit of a signed or float32 field is checked: a number below the minimum is stored wrapped"},
	{"range-named", []string{"C02"}, "the value of a named numeric type is not checked against the limits of the type when it is decoded by its own method"},
	{"range-unchecked", []string{"C02"}, "a member of a named pointer or foreign numeric type is stored without a range check"},
	{"null-array-element", []string{"C17"}, "null for a fixed array inside a list is accepted"},
	{"list-merges-old-elements", []string{"C17", "C01", "C15"}, "decoding into a list whose old storage is reused merges members of the old elements into the new ones"},
	{"path-of-elements", []string{"C06"}, "an error inside a list or map does not name the position or key"},
	{"path-of-member", []string{"C06"}, "an error in a base64 member does not name the member"},
	{"path-empty-root", []string{"C06"}, "the error path carries an empty component"},
	{"path-root-marker", []string{"C06"}, "an error in a named text type carries the component (root)"},
	{"null-named-collection", []string{"C05"}, "null for a member or value of a named list or map type is refused"},
	{"transit-from-zero", []string{"C01"}, "a type derived from a struct type is decoded from the zero value: members absent from the document lose what the receiver held"},
	{"nil-bytes-as-empty-text", []string{"C08"}, "a nil byte slice is written as an empty text"},
	{"nil-time-as-zero", []string{"C08", "C12", "C18"}, "a nil *time.Time is written as the text of the zero time"},
	{"nil-list-element-as-empty", []string{"C08", "C17"}, "a nil list inside a list is written as []"},
	{"non-finite-float", []string{"C07"}, "NaN and infinities are written as they are, which is not JSON"},
	{"comma-after-null", []string{"C07"}, "after a nil pointer written as null the separating comma of the next member is missing"},
	{"array-never-empty", []string{"C10"}, "a struct with a fixed array never counts as empty"},
	{"array-emptiness-inverted", []string{"C10"}, "a fixed array of structs or times counts as empty when its elements are not"},
	{"reset-beyond-len", []string{"C11"}, "Reset does not clear the list elements between length and capacity"},
	{"named-list-reset-keeps-elements", []string{"C11"}, "Reset of a named list keeps what the elements held; a later decode sees it"},
	{"named-map-reset-keeps-keys", []string{"C11"}, "Reset of a named map resets its values and keeps its keys"},
	{"nil-uuid-panics", []string{"C12"}, "encoding a nil *uuid.UUID panics"},
	{"long-base64-panics", []string{"C03"}, "decoding a base64 text longer than a fixed byte array panics"},
	{"null-required-bytes", []string{"C05"}, "null is accepted for a required member of a named byte slice or byte array type"},
	{"null-sets-default", []string{"C05"}, "null for a member of a pointer to a named pointer type applies the default"},
	{"layout-unescaped", []string{"C07", "C18"}, "a layout with quotes or backslashes is written without escaping"},
	{"delegated-omitted", []string{"C08"}, "the members of an embedded struct without a name are left out when the struct is empty, even those without omitempty"},
	{"delegated-without-members", []string{"C07"}, "an embedded struct whose encoding has no members is written as null between the braces"},
}
