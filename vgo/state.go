package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"sync/atomic"

	"go/types"
	"strconv"
	"strings"
)

// State is a symbolic program state.
type State struct {
	heap    map[int]Val
	env     map[types.Object]int
	pc      []*Term
	pcset   map[int]bool
	fas     []*Forall
	wits    []*Term // index constants in scope: candidate witnesses
	lazy    map[string]int
	nextObj int
	ghost   map[string]Val
	events  []string // library protocol events (parser pool)
	ret     []Val
	poison  []poison
}

// Cond is a conjunction of terms and of quantified facts.
type Cond struct {
	ts  []*Term
	fas []*Forall
}

// Forall states: for every i in [0,n) one of the cases holds at idx:=i.
type Forall struct {
	idx   *Term
	n     *Term
	cases []Cond
}

func (st *State) clone() *State {
	c := &State{
		heap: make(map[int]Val, len(st.heap)+8), env: make(map[types.Object]int, len(st.env)+4),
		pc: append([]*Term(nil), st.pc...), pcset: make(map[int]bool, len(st.pcset)+8),
		fas: append([]*Forall(nil), st.fas...), wits: append([]*Term(nil), st.wits...),
		lazy: make(map[string]int, len(st.lazy)+4), nextObj: st.nextObj,
		ghost: make(map[string]Val, len(st.ghost)), events: append([]string(nil), st.events...), ret: st.ret,
		poison: append([]poison(nil), st.poison...),
	}
	for k, v := range st.heap {
		c.heap[k] = v
	}
	for k, v := range st.env {
		c.env[k] = v
	}
	for k, v := range st.pcset {
		c.pcset[k] = v
	}
	for k, v := range st.lazy {
		c.lazy[k] = v
	}
	for k, v := range st.ghost {
		c.ghost[k] = v
	}
	return c
}

func newState() *State {
	return &State{heap: map[int]Val{}, env: map[types.Object]int{}, pcset: map[int]bool{}, lazy: map[string]int{}, nextObj: 1, ghost: map[string]Val{}}
}

func (st *State) assume(t *Term) {
	if t.isTrue() || st.pcset[t.id] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	st.pcset[t.id] = true
	st.pc = append(st.pc, t)
}

type ctl int

const (
	cNormal ctl = iota
	cBreak
	cContinue
	cReturn
)

// Task verifies one function (or one lemma).
type Task struct {
	b          *Bank
	sol        *Solver
	sol2       *Solver // second opinion
	cache      map[string]string
	axs        map[int][]*Term
	pkg        *Pkg
	fn         *ast.FuncDecl
	sig        *types.Signature
	names      []string // member names the validator contract counts
	fails      []Failure
	failed     map[string]bool
	obls       []Obligation
	oblSet     map[string]int
	quiet      int
	loops      map[string]*loopResult
	roots      int
	steps      int
	lazyInit   map[string]lazyInfo
	helperBody string
	dev        bool            // deviations listed as known findings are admitted
	devUsed    map[string]bool // those that were needed
	kf         map[string]bool // id@member, or "*": the deviations admitted
	mem        string          // member whose contract is being decided
	listNonNil bool
	curFld     string
	method     string
	typ        *types.Named
	limit      int
	inl        int
}

// Failure is an obligation the verifier could not discharge.
type Failure struct {
	Name   string // obligation name
	Kind   string // value, kind, range, strict, dup, default, required, null, path, out, safety, ...
	Field  string
	Pos    string
	Detail string
	Model  map[string]string
	Alt    string // known-finding id whose exact deviation was verified instead
}

// Obligation is a named proof obligation and its outcome.
type Obligation struct {
	Name string
	Kind string
	OK   bool
	N    int // number of paths / queries it was discharged on
	By   string
}

// Exec explores one path.
type Exec struct {
	t       *Task
	st      *State
	dec     []int
	pos     int
	pending [][]int
	ctl     ctl
	infeas  bool
	root    int
	loopIdx []*Term
	frames  []*frame
	scope   []types.Object
	result  any
	nfresh  int
	inLoop  int
	nloops  int
	done    bool // the exploration that owns this path is over
}

type pathEnd struct{}

const maxPaths = 3000

// explore runs f over all feasible paths from st.
func (t *Task) explore(st *State, parent *Exec, f func(e *Exec)) []*Exec {
	var res []*Exec
	t.roots++
	root := t.roots
	work := [][]int{nil}
	for len(work) > 0 {
		d := work[len(work)-1]
		work = work[:len(work)-1]
		e := &Exec{t: t, st: st.clone(), dec: d, root: root}
		if parent != nil {
			e.loopIdx = parent.loopIdx
			for _, f := range parent.frames {
				g := *f
				g.defers = append([]func(*Exec){}, f.defers...)
				g.ret = append([]Val(nil), f.ret...)
				e.frames = append(e.frames, &g)
			}
			e.scope = append([]types.Object(nil), parent.scope...)
			e.inLoop = parent.inLoop
		}
		t.steps++
		if t.steps > t.limit {
			panic(unsupported("path limit exceeded"))
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(pathEnd); ok {
						e.infeas = true
						return
					}
					panic(r)
				}
			}()
			f(e)
		}()
		e.done = true
		work = append(work, e.pending...)
		if !e.infeas {
			res = append(res, e)
		}
	}
	return res
}

func (e *Exec) kill() { panic(pathEnd{}) }

func (e *Exec) assume(t *Term) {
	if t.isFalse() {
		e.kill()
	}
	e.st.assume(t)
}

// assumeCheck assumes t and abandons the path if it becomes infeasible.
func (e *Exec) assumeCheck(t *Term) {
	e.assume(t)
	if !e.t.feasible(e.st.pc) {
		e.kill()
	}
}

func (t *Task) check(fs []*Term) string {
	// syntactic shortcuts
	set := map[int]bool{}
	for _, f := range fs {
		if f.isFalse() {
			return "unsat"
		}
		set[f.id] = true
	}
	for _, f := range fs {
		if set[t.b.Not(f).id] {
			return "unsat"
		}
	}
	fs = t.relevant(fs)
	var sb []byte
	for _, f := range fs {
		sb = append(strconv.AppendInt(sb, int64(f.id), 32), ',')
	}
	k := string(sb)
	if r, ok := t.cache[k]; ok {
		return r
	}
	r := t.sol.Check(fs)
	if r == "unsat" && t.sol2 != nil {
		switch t.sol2.Check(fs) {
		case "unsat":
			atomic.AddInt64(&statConfirmed, 1)
		case "sat":
			// the solvers contradict each other: nothing is proved
			atomic.AddInt64(&statContradicted, 1)
			r = "unknown"
		default:
			atomic.AddInt64(&statUnconfirmed, 1)
		}
	}
	t.cache[k] = r
	return r
}

// relevant keeps the whole set; facts about terms are added here.
func (t *Task) relevant(fs []*Term) []*Term {
	out := make([]*Term, 0, 2*len(fs))
	have := make(map[int]bool, 2*len(fs))
	for _, f := range fs {
		for _, a := range t.axiomsOf(f) {
			if !have[a.id] {
				have[a.id] = true
				out = append(out, a)
			}
		}
		if !have[f.id] {
			have[f.id] = true
			out = append(out, f)
		}
	}
	return out
}

// axiomsOf returns the background facts for the ground terms of f, each fact preceding its first use.
func (t *Task) axiomsOf(f *Term) []*Term {
	if as, ok := t.axs[f.id]; ok {
		return as
	}
	as := t.axioms([]*Term{f})
	t.axs[f.id] = as
	return as
}

// axioms instantiates the background facts of the library and type model for the ground terms that occur.
func (t *Task) axioms(fs []*Term) []*Term {
	b := t.b
	var out []*Term
	seen := map[int]bool{}
	have := map[int]bool{}
	for _, f := range fs {
		have[f.id] = true
	}
	push := func(x *Term) {
		if !x.isTrue() && !have[x.id] {
			have[x.id] = true
			out = append(out, x)
		}
	}
	// string constants are pairwise distinct: each has its own number
	var strs func(x *Term)
	strs = func(x *Term) {
		if x.op == "str" {
			push(b.mk("=", "", SBool, []*Term{b.App("strid", SInt, x), b.Int(int64(x.id))}))
		}
		for _, a := range x.args {
			strs(a)
		}
	}
	add := func(x *Term) {
		strs(x)
		push(x)
	}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		for _, a := range x.args {
			rec(a)
		}
		if x.op == "str" {
			strs(x)
		}
		if x.op != "app" {
			return
		}
		zero := b.Int(0)
		switch x.name {
		case "strlen", "jlen", "jolen", "len", "mlen", "b64n":
			add(b.Le(zero, x))
			add(b.Le(x, b.Int(1<<47)))
			if x.name == "strlen" {
				add(b.Eq(b.Eq(x, zero), b.Eq(x.args[0], b.Str(""))))
			}
			if x.name == "b64n" {
				dl := b.App("b64dl", SInt, b.App("strlen", SInt, x.args[0]))
				add(b.Le(x, dl))
			}
			if x.name == "len" {
				add(b.Implies(b.App("isnil", SBool, x.args[0]), b.Eq(x, zero)))
				add(b.Le(x, b.App("cap", SInt, x.args[0])))
			}
			if x.name == "mlen" {
				add(b.Implies(b.App("isnil", SBool, x.args[0]), b.Eq(x, zero)))
			}
		case "b64w":
			dl := b.App("b64dl", SInt, b.App("strlen", SInt, x.args[0]))
			n := b.App("b64n", SInt, x.args[0])
			add(b.And(b.Le(zero, x), b.Le(x, dl)))
			add(b.Implies(b.App("b64ok", SBool, x.args[0]), b.Eq(x, n)))
		case "b64el", "b64dl":
			add(b.Le(zero, x))
		case "cap":
			add(b.Le(zero, x))
			add(b.Implies(b.App("isnil", SBool, x.args[0]), b.Eq(x, zero)))
		case "jtype":
			add(b.Le(zero, x))
			add(b.Le(x, b.Int(6)))
		case "jint":
			add(b.And(b.Le(b.Int(-1<<63), x), b.Le(x, b.Int(1<<63-1))))
		case "juint":
			add(b.And(b.Le(zero, x), b.Le(x, b.Big(maxU64))))
		case "jint_ok", "juint_ok", "jflt_ok":
			add(b.Implies(x, b.Eq(b.App("jtype", SInt, x.args[0]), b.Int(4))))
		case "jnil":
		case "cnt":
			add(b.Le(zero, x))
			add(b.Implies(b.Le(zero, x.args[2]), b.Le(x, x.args[2])))
			// cnt(name,v,0)=0
			add(b.Implies(b.Eq(x.args[2], zero), b.Eq(x, zero)))
		}
		if x.sort == SInt && len(x.name) > 2 && x.name[1] == ':' {
			// projections carry the Go type in their name: "<k>:<type>:..."
			if lo, hi := rangeOfKey(x.name); hi != nil {
				add(b.And(b.Le(b.Big(lo), x), b.Le(x, b.Big(hi))))
			}
		}
	}
	for _, f := range fs {
		rec(f)
	}
	return out
}

func (t *Task) feasible(pc []*Term) bool { return t.check(pc) != "unsat" }

// prove reports whether the path condition entails c.
func (e *Exec) prove(c *Term) bool {
	if c.isTrue() || e.st.pcset[c.id] {
		return true
	}
	if c.isFalse() {
		return e.t.check(append([]*Term(nil), e.st.pc...)) == "unsat"
	}
	if e.direct(c) {
		return true
	}
	fs := append(append([]*Term(nil), e.st.pc...), e.t.b.Not(c))
	return e.t.check(fs) == "unsat"
}

// direct: a clause of two literals in the path condition has c, and its other literal is refuted.
func (e *Exec) direct(c *Term) bool {
	for _, f := range e.st.pc {
		if f.op != "not" || f.args[0].op != "and" || len(f.args[0].args) != 2 {
			continue
		}
		// not (p and q): c is the negation of one of them
		p, q := f.args[0].args[0], f.args[0].args[1]
		if nc := e.t.b.Not(c); p == nc && e.known(q) || q == nc && e.known(p) {
			return true
		}
	}
	return false
}

// known: p is among the facts, or says that a term, which is a constant, is not another one.
func (e *Exec) known(p *Term) bool {
	if e.st.pcset[p.id] {
		return true
	}
	if p.op == "not" && p.args[0].op == "=" {
		x, y := p.args[0].args[0], p.args[0].args[1]
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			k := e.constOf(x)
			return k != nil && k != y
		}
	}
	return false
}

// constOf: the constant that the path condition says x is, or nil.
func (e *Exec) constOf(x *Term) *Term {
	for _, f := range e.st.pc {
		if f.op == "=" {
			if f.args[0] == x && f.args[1].isConst() {
				return f.args[1]
			}
			if f.args[1] == x && f.args[0].isConst() {
				return f.args[0]
			}
		}
	}
	return nil
}

func (t *Term) isConst() bool { return t.op == "int" || t.op == "str" }

func (e *Exec) next(n int) (int, bool) {
	if e.pos < len(e.dec) {
		d := e.dec[e.pos]
		e.pos++
		return d, true
	}
	return 0, false
}

func (e *Exec) push(d int) {
	e.dec = append(append([]int(nil), e.dec[:e.pos]...), d)
	e.pos++
}

func (e *Exec) alt(d int) {
	if e.done {
		panic("choice after the exploration ended")
	}
	e.pending = append(e.pending, append(append([]int(nil), e.dec[:e.pos]...), d))
}

// branch decides c on this path, forking if both outcomes are possible.
func (e *Exec) branch(c *Term) bool {
	b := e.t.b
	if c.isTrue() {
		return true
	}
	if c.isFalse() {
		return false
	}
	if e.st.pcset[c.id] {
		return true
	}
	nc := b.Not(c)
	if e.st.pcset[nc.id] {
		return false
	}
	if d, ok := e.next(2); ok {
		if d == 0 {
			e.assume(c)
			return true
		}
		e.assume(nc)
		return false
	}
	ft := e.t.feasible(append(append([]*Term(nil), e.st.pc...), c))
	ff := e.t.feasible(append(append([]*Term(nil), e.st.pc...), nc))
	switch {
	case ft && ff:
		e.alt(1)
		e.push(0)
		e.assume(c)
		return true
	case ft:
		e.push(0)
		e.assume(c)
		return true
	case ff:
		e.push(1)
		e.assume(nc)
		return false
	}
	e.kill()
	return false
}

// choose picks one of n alternatives nondeterministically.
func (e *Exec) choose(n int) int {
	if n <= 0 {
		e.kill()
	}
	if d, ok := e.next(n); ok {
		return d
	}
	for i := n - 1; i >= 1; i-- {
		e.alt(i)
	}
	e.push(0)
	return 0
}

func (e *Exec) trace() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:", e.root)
	for _, d := range e.dec[:e.pos] {
		fmt.Fprintf(&sb, "%d.", d)
	}
	return sb.String()
}

// fresh makes a new symbol, functional in the enclosing loop indices.
func (e *Exec) fresh(name string, s Sort) *Term {
	e.nfresh++
	return e.t.b.App(fmt.Sprintf("%s#%s%d", name, e.trace(), e.nfresh), s, e.loopIdx...)
}

func (e *Exec) alloc(v Val) int {
	id := e.st.nextObj
	e.st.nextObj++
	e.st.heap[id] = v
	return id
}

func (t *Task) posStr(p token.Pos) string {
	if t.pkg == nil || !p.IsValid() {
		return ""
	}
	ps := t.pkg.fset.Position(p)
	return fmt.Sprintf("%s:%d", shortPath(ps.Filename), ps.Line)
}

func shortPath(p string) string {
	i := strings.LastIndex(p, "/")
	if i >= 0 {
		j := strings.LastIndex(p[:i], "/")
		return p[j+1:]
	}
	return p
}

// obligation records the outcome of one named proof obligation.
func (e *Exec) obligation(name, kind string, ok bool, detail string, pos token.Pos) {
	t := e.t
	if t.quiet > 0 {
		return
	}
	full := t.oblName(name)
	i, seen := t.oblSet[full]
	if !seen {
		i = len(t.obls)
		t.oblSet[full] = i
		t.obls = append(t.obls, Obligation{Name: full, Kind: kind, OK: true})
	}
	t.obls[i].N++
	if ok {
		return
	}
	t.obls[i].OK = false
	if t.failed[full+detail] {
		return
	}
	t.failed[full+detail] = true
	f := Failure{Name: full, Kind: kind, Field: t.curFld, Pos: t.posStr(pos), Detail: detail}
	f.Model = e.model()
	t.fails = append(t.fails, f)
}

func (t *Task) oblName(name string) string {
	n := "valyjson_utils"
	if t.typ != nil {
		n = t.typ.Obj().Name()
	}
	return n + "." + t.method + "/" + name
}

func (e *Exec) model() map[string]string {
	var want []*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			rec(a)
		}
		if t.op == "app" && (t.sort == SInt || t.sort == SBool) {
			want = append(want, t)
		}
	}
	for _, p := range e.st.pc {
		rec(p)
	}
	if len(want) > 40 {
		want = want[:40]
	}
	return e.t.sol.Model(e.t.relevant(append([]*Term(nil), e.st.pc...)), want)
}

// require records a safety obligation and continues under the assumption that it holds.
func (e *Exec) require(c *Term, name, kind string, pos token.Pos) {
	e.requireDev(c, name, kind, "", pos)
}

// requireDev is require; dev names the listed deviation that covers the case where c does not hold.
func (e *Exec) requireDev(c *Term, name, kind, dev string, pos token.Pos) {
	if c.isTrue() {
		return
	}
	ok := e.prove(c)
	if !ok && dev != "" && e.t.allowed(dev) {
		e.t.use(dev)
		e.assumeCheck(c)
		return
	}
	e.obligation(fmt.Sprintf("%s@%s", name, e.t.relPos(pos)), kind, ok, "not provable: "+c.String(), pos)
	if !ok {
		e.assumeCheck(c)
	} else {
		e.st.assume(c)
	}
}

// relPos names a position by its ordinal inside the function so that names survive unrelated edits.
func (t *Task) relPos(p token.Pos) string {
	if t.fn == nil || t.pkg == nil {
		return "0"
	}
	a, c := t.pkg.fset.Position(t.fn.Pos()), t.pkg.fset.Position(p)
	return fmt.Sprintf("+%d", c.Line-a.Line)
}
