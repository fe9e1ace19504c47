package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if len(os.Args) > 1 && os.Args[1] == "dev" {
		devMain(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		checkMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "literals" {
		// the constants of the generator that the corpus was written for
		b, _ := json.MarshalIndent(constants(repoDir()), "", " ")
		os.WriteFile(filepath.Join(homeDir(), "vgo/literals.json"), append(b, '\n'), 0o644)
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "scan" {
		scanMain(os.Args[2:])
		return
	}
}

func newTask(p *Pkg, sol *Solver) *Task {
	b := NewBank()
	sol.Reset(b)
	return &Task{b: b, sol: sol, cache: map[string]string{}, axs: map[int][]*Term{}, pkg: p, failed: map[string]bool{}, oblSet: map[string]int{}, loops: map[string]*loopResult{}, limit: 20000, kf: map[string]bool{}, devUsed: map[string]bool{}}
}

// run verifies one method; a source construct outside the subset is reported as such.
func (t *Task) run(f func()) (unsup string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsupported:
				unsup = x.msg
			default:
				unsup = fmt.Sprintf("internal: %v", r)
				if os.Getenv("VGO_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}
	}()
	f()
	return ""
}

func devMain(args []string) {
	dir, path, typ, meth := args[0], args[1], args[2], args[3]
	ls, err := goList(dir, "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	l := &Loader{ls}
	p, err := l.load(path)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	sol, err := NewSolver("z3")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer sol.Close()
	var names []string
	for _, n := range p.types.Scope().Names() {
		if tn, ok := p.types.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() && (typ == "all" || n == typ) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		named := namedOf(p.types.Scope().Lookup(n).Type())
		for _, m := range strings.Split(meth, ",") {
			if p.methods[n+"."+m] == nil {
				continue
			}
			t := newTask(p, sol)
			if len(args) > 4 {
				t.kf["*"] = true
			}
			t0 := time.Now()
			un := t.run(func() { t.verifyMethod(named, m) })
			ok := 0
			for _, o := range t.obls {
				if o.OK {
					ok++
				}
			}
			fmt.Printf("%s.%s: %d/%d obligations, %d steps, %v", n, m, ok, len(t.obls), t.steps, time.Since(t0).Round(time.Millisecond))
			if un != "" {
				fmt.Printf(" UNSUPPORTED %s", un)
			}
			var du []string
			for k := range t.devUsed {
				du = append(du, k)
			}
			sort.Strings(du)
			if len(du) > 0 {
				fmt.Printf(" dev=%v", du)
			}
			fmt.Println()
			for _, f := range t.fails {
				fmt.Printf("   FAIL %s [%s] %s %s\n", f.Name, f.Kind, f.Pos, f.Detail)
				if os.Getenv("VGO_MODEL") != "" {
					fmt.Println("      ", f.Model)
				}
			}
		}
	}
}

func (t *Task) verifyMethod(n *types.Named, m string) {
	switch m {
	case "FillFromJSON":
		t.verifyFill(n)
	case "validate":
		t.verifyValidate(n, t.pkg.strict[n.Obj().Name()])
	case "UnmarshalJSON":
		t.verifyUnmarshal(n)
	case "MarshalJSON":
		t.verifyMarshalJSON(n)
	case "IsZero":
		t.verifyIsZero(n)
	case "Reset":
		t.verifyReset(n)
	case "MarshalTo":
		t.verifyMarshalTo(n)
	default:
		panic(unsupported("method %s", m))
	}
}
