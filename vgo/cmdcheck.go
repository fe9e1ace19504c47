package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// scope says which generated methods a property is about.
type scope struct {
	methods []string
	class   string // only types with a member of this class
}

var all = []string{"UnmarshalJSON", "FillFromJSON", "validate", "MarshalJSON", "MarshalTo", "IsZero", "Reset"}

var decoding = []string{"FillFromJSON", "UnmarshalJSON"}

var scopes = map[string]scope{
	"C01": {methods: decoding},
	"C02": {methods: decoding},
	"C03": {methods: []string{"FillFromJSON", "UnmarshalJSON", "validate"}},
	"C04": {methods: []string{"validate", "FillFromJSON", "UnmarshalJSON"}},
	"C05": {methods: decoding},
	"C06": {methods: decoding},
	"C07": {methods: []string{"MarshalTo", "MarshalJSON"}},
	"C08": {methods: []string{"MarshalTo", "MarshalJSON", "IsZero"}},
	"C09": {methods: []string{"FillFromJSON", "MarshalTo", "UnmarshalJSON", "MarshalJSON", "validate", "IsZero"}},
	"C10": {methods: []string{"IsZero"}},
	"C11": {methods: []string{"Reset"}},
	"C12": {methods: []string{"MarshalTo", "MarshalJSON", "IsZero"}},
	"C13": {methods: nil},
	"C14": {methods: all, class: "inline"},
	"C15": {methods: decoding},
	"C16": {methods: all, class: "map"},
	"C17": {methods: all, class: "list"},
	"C18": {methods: all, class: "time"},
	"C19": {methods: all, class: "foreign"},
}

// kinds says which properties a failed obligation of a kind contradicts.
var kinds = map[string][]string{
	"value":    {"C01", "C09"},
	"kind":     {"C03"},
	"range":    {"C02"},
	"panic":    {"C03"},
	"null":     {"C05", "C03", "C01", "C09"},
	"list":     {"C17", "C01", "C09"},
	"map":      {"C16", "C01", "C09"},
	"alias":    {"C15", "C01"},
	"pool":     {"C15"},
	"default":  {"C05", "C01"},
	"required": {"C05"},
	"absent":   {"C05", "C01", "C09"},
	"spurious": {"C06", "C01", "C09"}, // an acceptable document is refused
	"path":     {"C06"},
	"strict":   {"C04", "C03"},
	"dup":      {"C04"},
	"encode":   {"C08", "C09"},
	"layout":   {"C18", "C08", "C09"},
	"out":      {"C07", "C08", "C09"},
	"missing":  {"C08", "C09"},
	"nil":      {"C12", "C08"},
	"err":      {"C12"},
	"empty":    {"C10", "C08", "C09"}, // what is taken for empty is omitted
	"reset":    {"C11"},
}

// classesOf: what the type of a member contains.
func classesOf(T types.Type, home *types.Package) map[string]bool {
	m := map[string]bool{}
	seen := map[types.Type]bool{}
	var rec func(t types.Type)
	rec = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		if timeLike(t) {
			m["time"] = true
		}
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg() != home && n.Obj().Pkg().Path() != "time" && !strings.Contains(n.Obj().Pkg().Path(), "google/uuid") {
			m["foreign"] = true
		}
		switch u := under(t).(type) {
		case *types.Basic:
			if u.Info()&types.IsNumeric != 0 {
				m["number"] = true
			}
		case *types.Pointer:
			rec(u.Elem())
		case *types.Slice:
			if _, _, b := isByteSeq(t); !b {
				m["list"] = true
			}
			rec(u.Elem())
		case *types.Array:
			if _, _, b := isByteSeq(t); !b && !uuidLike(t) {
				m["list"] = true
			}
			rec(u.Elem())
		case *types.Map:
			m["map"] = true
			rec(u.Elem())
			rec(u.Key())
		}
	}
	rec(T)
	return m
}

// unitClasses: the classes of the member named by fld, or of all members.
func (u *Unit) unitClasses(fld string) map[string]bool {
	m := map[string]bool{}
	st, ok := u.named.Underlying().(*types.Struct)
	if !ok || timeLike(u.named) {
		for k := range classesOf(u.named, u.pkg.types) {
			m[k] = true
		}
		if d, ok := declOf(u.named); ok && d.rhs != nil {
			for k := range classesOf(d.rhs, u.pkg.types) {
				m[k] = true
			}
		}
		return m
	}
	if d, ok := declOf(u.named); ok && d.rhs != nil {
		if n := namedOf(d.rhs); n != nil && n.Obj().Pkg() != u.pkg.types {
			m["foreign"] = true
		}
	}
	ms := membersOf(st, u.pkg.types)
	found := false
	for i := range ms {
		if fld != "" && ms[i].label() != fld {
			continue
		}
		found = true
		for k := range classesOf(ms[i].T, u.pkg.types) {
			m[k] = true
		}
		if ms[i].inlined || ms[i].delegated {
			m["inline"] = true
		}
	}
	if fld != "" && !found {
		return u.unitClasses("")
	}
	return m
}

var classProp = map[string]string{"list": "C17", "map": "C16", "time": "C18", "foreign": "C19", "inline": "C14"}

// contradicts: the properties a failed obligation is evidence against.
func (u *Unit) contradicts(f Failure) map[string]bool {
	m := map[string]bool{}
	if u.help {
		ps := helperFails[u.meth][f.Kind]
		if ps == nil {
			ps = helperFails[u.meth][""]
		}
		for _, p := range ps {
			m[p] = true
		}
		return m
	}
	ks := kinds[f.Kind]
	for _, p := range ks {
		m[p] = true
	}
	enc := has(encoders, u.meth)
	if f.Kind == "panic" || f.Kind == "safety" {
		m["C03"] = !enc
		m["C12"] = enc
	}
	if len(ks) == 0 && f.Kind != "panic" && f.Kind != "safety" {
		if enc {
			m["C08"] = true
		} else {
			m["C01"] = true
		}
	}
	if f.Kind == "value" && enc {
		m["C08"] = true
	}
	if f.Kind == "err" && !enc {
		// a refusal that is lost, or one without a reason
		for _, p := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C09"} {
			m[p] = true
		}
		delete(m, "C12")
	}
	cl := u.unitClasses(f.Field)
	if f.Kind == "spurious" && cl["number"] {
		m["C02"] = true
	}
	for c, p := range classProp {
		if cl[c] {
			m[p] = true
		}
	}
	if u.meth == "IsZero" && cl["inline"] {
		m["C14"] = true
	}
	return m
}

type violation struct {
	what   string
	detail string
	unit   *Unit
	f      Failure
}

func checkMain(args []string) {
	prop := args[0]
	sc, ok := scopes[prop]
	if !ok {
		fmt.Println("unknown property", prop)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	if len(args) > 1 && args[1] == "thorough" {
		tier = "thorough"
	}
	if tier == "thorough" {
		thorough, crossCheck = true, true
		crossUntil = time.Now().Add(5 * time.Minute)
	}
	seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	c := &Corpus{repo: repoDir(), home: homeDir(), work: tempWork()}
	code := c.check(prop, sc, tier, seed, t0)
	os.RemoveAll(c.work)
	os.Exit(code)
}

func (c *Corpus) check(prop string, sc scope, tier string, seed int, t0 time.Time) int {
	known, err := loadKnown(c.home)
	if err != nil {
		fmt.Println("known findings:", err)
		return 2
	}
	if err := c.build(); err != nil {
		fmt.Println("cannot build the corpus:", err)
		return 2
	}
	units, bad := c.prepare(func(p *Pkg, typ, meth string) bool {
		if typ == "" {
			return has(helperProps[meth], prop)
		}
		if !has(sc.methods, meth) {
			return false
		}
		if sc.class == "" {
			return true
		}
		tn, _ := p.types.Scope().Lookup(typ).(*types.TypeName)
		if tn == nil || namedOf(tn.Type()) == nil {
			return false
		}
		u := &Unit{pkg: p, typ: typ, meth: meth, named: namedOf(tn.Type())}
		return u.unitClasses("")[sc.class]
	})
	sites := known.sites()
	if err := verifyAll(units, func(u *Unit) map[string]bool { return allowed(sites, u) }, false); err != nil {
		fmt.Println("the verifier failed:", err)
		return 2
	}
	var vs []violation
	// types
	for _, b := range bad {
		if c.concerns(prop, b) {
			vs = append(vs, violation{what: b.what, detail: b.group + ": " + b.detail})
		}
	}
	var obls, ok, insts int
	var cpu time.Duration
	var unsup []string
	used := map[string]int{}
	var samples []any
	fn := map[string]bool{}
	for _, u := range units {
		r := u.res
		obls += r.obls
		ok += r.ok
		cpu += r.wall
		insts += 1 + len(u.same)
		fn[u.meth] = true
		if r.unsup != "" {
			unsup = append(unsup, u.site()+": "+r.unsup)
			// what the verifier does not accept is not proved
			vs = append(vs, violation{what: u.site() + ": the function is outside the verifier's reach", detail: r.unsup, unit: u, f: Failure{Kind: "undecided"}})
		}
		for _, d := range r.dev {
			used[strings.SplitN(d, "@", 2)[0]]++
		}
		for _, f := range r.fails {
			if u.contradicts(f)[prop] {
				vs = append(vs, violation{what: u.site() + ": " + f.Name, detail: f.Detail, unit: u, f: f})
			}
		}
		if len(samples) < 6 && r.obls > 0 && r.ok == r.obls && r.sample != "" {
			samples = append(samples, map[string]any{"function": u.site(), "obligations": r.obls, "discharged": r.ok, "one_of_them": r.sample})
		}
	}
	if prop == "C13" {
		// generation, compilation and the method set of every declaration
		for _, p := range c.parsed {
			var ns []string
			for n := range p.annot {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for _, n := range ns {
				exp := p.expectedMethods(n)
				k := 2 + len(exp)
				obls += k
				insts += len(exp)
				fine := true
				for _, b := range bad {
					if b.group == c.groupOf(p.path) && (b.typ == "" || b.typ == n) {
						fine = false
					}
				}
				if fine {
					ok += k
					if len(samples) < 6 && len(exp) > 0 {
						samples = append(samples, map[string]any{"declaration": p.path + "." + n, "obligations": "generated without failure; type-checks; has exactly " + strings.Join(exp, ", ")})
					}
				}
			}
		}
	}
	// a corpus that shrinks to nothing decides nothing
	if obls == 0 {
		fmt.Println("no obligations were generated")
		return 2
	}
	for _, f := range known.Findings {
		if f.Fixed == "" && has(f.Properties, prop) {
			n := 0
			for _, s := range f.Sites {
				n += len(s)
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d places)\n", prop, f.ID, f.What, n)
		}
	}
	code := 0
	if len(vs) > 0 {
		code = 1
		c.report(prop, vs)
	}
	types_ := 0
	for _, p := range c.parsed {
		types_ += len(p.annot)
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"types": types_})
	}
	cov := map[string]any{
		"programs":              len(c.dirs),
		"declarations":          types_,
		"functions":             insts,
		"distinct_functions":    len(units),
		"obligations":           obls,
		"discharged":            ok,
		"disagreements_checked": obls,
		"solver":                "z3 4.8.12",
		"solver_queries":        atomic.LoadInt64(&statQueries),
		"solver_s":              float64(atomic.LoadInt64(&statSolverNs)) / 1e9,
		"solver_unknown":        atomic.LoadInt64(&statUnknown),
		"verifier_cpu_s":        cpu.Seconds(),
		"undecided_functions":   unsup,
		"deviations_used":       used,
		"samples":               samples,
		"checker_cmd":           "vgo check " + prop,
		"trusted_base":          trusted,
	}
	if crossCheck {
		cov["second_solver"] = "cvc5 1.1.2"
		cov["functions_with_second_solver"] = atomic.LoadInt64(&statCrossed)
		cov["functions_without_second_solver"] = atomic.LoadInt64(&statNotCrossed)
		cov["refutations_confirmed_by_second"] = atomic.LoadInt64(&statConfirmed)
		cov["refutations_second_unknown"] = atomic.LoadInt64(&statUnconfirmed)
		cov["refutations_contradicted"] = atomic.LoadInt64(&statContradicted)
		cov["second_solver_s"] = float64(atomic.LoadInt64(&statSecondNs)) / 1e9
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "translation_validation",
		"coverage": cov, "assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(vs),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.home, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.home, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d packages, %d functions (%d distinct), %d/%d obligations discharged, %d undecided functions, %d violations, %.0fs\n",
		prop, len(c.dirs), insts, len(units), ok, obls, len(unsup), len(vs), time.Since(t0).Seconds())
	return code
}

// concerns: a package that cannot be generated or compiled contradicts the property, because it declares
// something the property speaks about, and there is no code that could satisfy it.
func (c *Corpus) concerns(prop string, b compileFailure) bool {
	if prop == "C13" {
		return true
	}
	f := c.features(b.group)
	switch prop {
	case "C02":
		return f["number"]
	case "C05":
		return f["default"]
	case "C14", "C16", "C17", "C18", "C19":
		return f[prop]
	}
	return true
}

var featureText = map[string]*regexp.Regexp{
	"number":  regexp.MustCompile(`\b(u?int(8|16|32|64)?|float(32|64))\b`),
	"default": regexp.MustCompile(`default:"|,required`),
	"C14":     regexp.MustCompile(",inline|(?m)^\\t\\*?([a-z]\\w*\\.)?[A-Z]\\w*\\s*(`|$)"),
	"C16":     regexp.MustCompile(`\bmap\[`),
	"C17":     regexp.MustCompile(`\[\w*\]`),
	"C18":     regexp.MustCompile(`\btime\.`),
	"C19":     regexp.MustCompile(`(?m)"fill/`),
}

// features says what the declarations of a group contain.
func (c *Corpus) features(group string) map[string]bool {
	m := map[string]bool{}
	filepath.Walk(filepath.Join(c.home, "corpus", group), func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		text, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		for k, re := range featureText {
			if re.Match(text) {
				m[k] = true
			}
		}
		return nil
	})
	return m
}

func (c *Corpus) report(prop string, vs []violation) {
	dir := filepath.Join(c.home, "replay")
	os.MkdirAll(dir, 0o755)
	max := 5
	// one failed obligation of each function first
	var first, rest []violation
	seen := map[*Unit]bool{}
	for _, v := range vs {
		if v.unit != nil && seen[v.unit] {
			rest = append(rest, v)
			continue
		}
		seen[v.unit] = v.unit != nil
		first = append(first, v)
	}
	vs = append(first, rest...)
	// those a failing input is known for come first
	rp := c.newReplayer(4 * time.Minute)
	inputs := make([]string, len(vs))
	for i, n := 0, 0; i < len(vs) && i < 12 && n < max; i++ {
		if vs[i].unit == nil {
			n++
			continue
		}
		if inputs[i] = rp.find(prop, vs[i]); inputs[i] != "" {
			n++
		}
	}
	order := make([]int, len(vs))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool {
		known := func(i int) bool { return vs[i].unit == nil || inputs[i] != "" }
		return known(order[a]) && !known(order[b])
	})
	for n, i := range order {
		v := vs[i]
		if n >= max {
			fmt.Printf("… and %d more\n", len(vs)-max)
			return
		}
		h := sha256.Sum256([]byte(v.what + v.detail))
		path := filepath.Join(dir, fmt.Sprintf("%s-%x.txt", prop, h[:5]))
		var sb strings.Builder
		fmt.Fprintf(&sb, "property:   %s\nobligation: %s\nreason:     %s\n", prop, v.what, v.detail)
		tail := ""
		if v.unit != nil {
			fmt.Fprintf(&sb, "kind:       %s\nposition:   %s\n", v.f.Kind, v.f.Pos)
			var ks []string
			for k := range v.f.Model {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if len(ks) > 0 {
				sb.WriteString("\ncounterexample of the verifier:\n")
				for _, k := range ks {
					fmt.Fprintf(&sb, "  %s = %s\n", k, v.f.Model[k])
				}
			}
			if inputs[i] != "" {
				fmt.Fprintf(&sb, "\n%s", inputs[i])
			} else {
				tail = " no-failing-input-found"
			}
			if fd := v.unit.pkg.funcs[v.unit.meth]; v.unit.help && fd != nil {
				fmt.Fprintf(&sb, "\nfunction of the support file:\n%s\n", v.unit.pkg.text(fd))
			} else if fd := v.unit.pkg.methods[v.unit.typ+"."+v.unit.meth]; fd != nil {
				fmt.Fprintf(&sb, "\ndeclaration:\n%s\n\ngenerated function:\n%s\n", v.unit.pkg.text(v.unit.pkg.decls[v.unit.typ]), v.unit.pkg.text(fd))
			}
		}
		os.WriteFile(path, []byte(sb.String()), 0o644)
		fmt.Printf("  %s: %s\n", v.what, v.detail)
		if inputs[i] != "" {
			fmt.Print("  " + strings.ReplaceAll(strings.TrimSpace(inputs[i]), "\n", "\n  ") + "\n")
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, tail)
	}
}

var trusted = []string{
	"vgo: the symbolic executor and its contracts for the Go subset the generator emits",
	"z3 4.8.12",
	"go/parser and go/types of Go 1.24",
}

var assumptions = []string{
	"fastjson: Get, Type, Object, Array, String, Int, ... behave as their documentation says (assumed contracts in vgo/lib.go)",
	"jwriter.Writer: each method appends the JSON form of its argument, nothing after a recorded error is relied upon (assumed contract)",
	"time.Parse, Time.AppendFormat, uuid.UUID, strconv and encoding/base64 are functions of their arguments (assumed contracts)",
	"machine integers: conversions are checked as exact or failing; other arithmetic in generated code (lengths, counters) does not overflow",
	"append and slicing follow the Go specification; memory exhaustion is not modelled",
	"the programs considered are the declarations in /verif/corpus and /repo/test/tests/fill; for each of them the result holds for all inputs",
}
