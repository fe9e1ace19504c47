package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- running a function statement by statement

// live is one symbolic state between two statements of the function under verification.
type live struct {
	st   *State
	mark map[int]bool // members whose contract has been discharged
}

func (l *live) key() string {
	var ks []int
	for k := range l.mark {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return fmt.Sprint(ks)
}

// outcome is the end of one path through one statement.
type outcome struct {
	e   *Exec
	ret []Val // non-nil: the function returned
	end bool
}

// begin prepares the frame of the function under verification.
func (t *Task) begin(fd *ast.FuncDecl, st *State) *Exec {
	e := &Exec{t: t, st: st}
	fn := t.pkg.info.Defs[fd.Name].(*types.Func)
	t.sig = fn.Type().(*types.Signature)
	t.fn = fd
	e.enter(t.pkg.info, t.pkg.types, fd.Type, t.sig)
	return e
}

func (t *Task) recvObj(fd *ast.FuncDecl) types.Object {
	if fd.Recv != nil && len(fd.Recv.List[0].Names) > 0 {
		return t.pkg.info.Defs[fd.Recv.List[0].Names[0]]
	}
	return nil
}

func (t *Task) paramObj(fd *ast.FuncDecl, i int) types.Object {
	k := 0
	for _, f := range fd.Type.Params.List {
		for _, n := range f.Names {
			if k == i {
				return t.pkg.info.Defs[n]
			}
			k++
		}
	}
	return nil
}

// step runs one statement from st.
func (t *Task) step(base *Exec, st *State, s ast.Stmt, last bool) []outcome {
	var outs []outcome
	rets := map[*Exec][]Val{}
	end := map[*Exec]bool{}
	xs := t.explore(st, base, func(x *Exec) {
		if s != nil {
			x.stmt(s)
		}
		if x.ctl == cReturn || last {
			f := x.fr()
			r := x.finish(f)
			x.frames = append(x.frames, f)
			rets[x] = append([]Val{}, r...)
			end[x] = true
		} else if x.ctl != cNormal {
			panic(unsupported("control flow leaves the function body"))
		}
	})
	for _, x := range xs {
		outs = append(outs, outcome{x, rets[x], end[x]})
	}
	return outs
}

// usedIn: one of the statements mentions o.
func (t *Task) usedIn(o types.Object, list []ast.Stmt) bool {
	found := false
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && t.pkg.info.Uses[id] == o {
				found = true
			}
			return !found
		})
		if found {
			return true
		}
	}
	return false
}

// pristine is the initial content of an opaque value, unaffected by later changes of memory.
func (e *Exec) pristine(v Val) Val {
	o, ok := v.(*Opq)
	if !ok {
		return v
	}
	b := e.b()
	switch u := under(o.T).(type) {
	case *types.Pointer:
		return &PtrV{nil_: b.App("isnil", SBool, o.t), org: o.t, elem: u.Elem(), box: e.t.proj(o.t, "deref", u.Elem())}
	case *types.Slice:
		n := b.App("cap", SInt, o.t)
		return &SliceV{nil_: b.App("isnil", SBool, o.t), len: b.App("len", SInt, o.t), cap: n, off: b.Int(0), elem: u.Elem(), org: o.t, seq: &Seq{n: n, elem: u.Elem(), org: o.t}}
	case *types.Map:
		return &MapV{nil_: b.App("isnil", SBool, o.t), c: &MapC{org: o.t}, T: u, org: o.t}
	}
	return v
}

// ---------------------------------------------------------------- FillFromJSON of a struct type

type fillDriver struct {
	t     *Task
	v     *Term
	sobj  int
	ms    []member
	olds  []Val
	base  *Exec
	body  []ast.Stmt
	tk    string
	force int
}

func steps(path []int) []Step {
	var s []Step
	for _, p := range path {
		s = append(s, Step{fld: p})
	}
	return s
}

func (t *Task) verifyFill(n *types.Named) {
	fd := t.pkg.methods[n.Obj().Name()+".FillFromJSON"]
	if fd == nil || fd.Body == nil {
		panic(unsupported("no FillFromJSON"))
	}
	t.method, t.typ = "FillFromJSON", n
	st := newState()
	e := t.begin(fd, st)
	d := &fillDriver{t: t, base: e, body: fd.Body.List, tk: typeKey(n)}
	d.v = t.b.App("v", SJV)
	st.assume(t.b.Not(e.jnil(d.v)))
	s0 := t.symbol("s0", n)
	d.sobj = e.alloc(s0)
	if o := t.recvObj(fd); o != nil {
		if _, isP := o.Type().Underlying().(*types.Pointer); !isP {
			panic(unsupported("value receiver"))
		}
		st.env[o] = e.alloc(&PtrV{nil_: t.b.F, obj: d.sobj, elem: n})
	}
	e.bindParams(t.pkg.info, fd.Type, []Val{d.v})
	if u, ok := n.Underlying().(*types.Struct); ok && !timeLike(n) && t.transitRHS(n) == nil {
		d.ms = membersOf(u, t.pkg.types)
		for i := range d.ms {
			d.olds = append(d.olds, e.pristine(e.loadAt(s0, steps(d.ms[i].path))))
		}
		d.runStruct()
		return
	}
	d.runWhole(n, s0)
}

func (d *fillDriver) member(st *State, e *Exec, i int) Val {
	x := &Exec{t: d.t, st: st, root: e.root, frames: e.frames}
	return x.closeVal(x.loadAt(st.heap[d.sobj], steps(d.ms[i].path)), 0)
}

// strip turns closed content into something comparable.
func (d *fillDriver) changed(pre *State, e *Exec, i int) bool {
	return !sameVal(d.member(pre, e, i), d.member(e.st, e, i))
}

func (d *fillDriver) runStruct() {
	t := d.t
	cur := []*live{{st: d.base.st, mark: map[int]bool{}}}
	for k, s := range d.body {
		var next []*live
		seen := map[string]bool{}
		touched := map[int]bool{}
		type done struct {
			pre *live
			o   outcome
		}
		var outs []done
		for _, l := range cur {
			for _, o := range t.step(d.base, l.st, s, false) {
				if o.end {
					d.returned(l, o)
					continue
				}
				outs = append(outs, done{l, o})
				for i := range d.ms {
					if !touched[i] && d.changed(l.st, o.e, i) {
						touched[i] = true
					}
				}
			}
		}
		common := map[*live]map[int]int{}
		total := map[*live]int{}
		for _, q := range outs {
			if common[q.pre] == nil {
				common[q.pre] = map[int]int{}
			}
			total[q.pre]++
			for _, p := range q.o.e.st.pc {
				common[q.pre][p.id]++
			}
		}
		for _, q := range outs {
			mark := map[int]bool{}
			for i := range q.pre.mark {
				mark[i] = true
			}
			complete := true
			for i := range d.ms {
				if !touched[i] {
					continue
				}
				if mark[i] {
					if d.changed(q.pre.st, q.o.e, i) {
						delete(mark, i) // written again: to be discharged anew
					} else {
						continue
					}
				}
				v := d.checkMember(q.o.e, q.pre.st, i)
				if v != nil {
					if len(outs) > 40 || !d.later(i, d.body[k+1:]) {
						d.report(q.o.e, i, v, s)
					} else {
						complete = false
						continue
					}
				} else {
					d.t.okObl(q.o.e, "member "+d.ms[i].label(), s.Pos())
				}
				mark[i] = true
			}
			nl := d.collapse(q.pre, q.o.e, mark, k, complete)
			if nl.st != q.o.e.st {
				// what holds on every path through the statement is kept
				for _, p := range q.o.e.st.pc {
					if common[q.pre][p.id] == total[q.pre] {
						nl.st.assume(p)
					}
				}
			}
			key := ""
			if nl.st != q.o.e.st {
				key = fmt.Sprintf("%p", q.pre) + nl.key()
				if seen[key] {
					continue
				}
				seen[key] = true
			}
			next = append(next, nl)
		}
		if len(next) > 400 {
			panic(unsupported("too many states"))
		}
		cur = d.merge(next)
	}
	for _, l := range cur {
		for _, o := range t.step(d.base, l.st, nil, true) {
			d.returned(l, o)
		}
	}
}

// later: one of the statements mentions the field of member i.
func (d *fillDriver) later(i int, rest []ast.Stmt) bool {
	found := false
	for _, s := range rest {
		ast.Inspect(s, func(n ast.Node) bool {
			if sel, ok := n.(*ast.SelectorExpr); ok && sel.Sel.Name == d.ms[i].goName {
				found = true
			}
			return !found
		})
	}
	return found
}

// merge keeps one of several states that agree.
func (d *fillDriver) merge(in []*live) []*live {
	var out []*live
	seen := map[string]bool{}
	for _, l := range in {
		var sb strings.Builder
		sb.WriteString(l.key())
		for _, p := range l.st.pc {
			fmt.Fprintf(&sb, ",%d", p.id)
		}
		fmt.Fprintf(&sb, "/%d", len(l.st.fas))
		for o := range l.st.env {
			_ = o
		}
		if len(l.st.fas) == 0 && seen[sb.String()] {
			dup := false
			for _, p := range out {
				if p.key() == l.key() && sameHeap(p.st, l.st) {
					dup = true
				}
			}
			if dup {
				continue
			}
		}
		seen[sb.String()] = true
		out = append(out, l)
	}
	return out
}

func sameHeap(a, b *State) bool {
	if len(a.heap) != len(b.heap) || len(a.env) != len(b.env) {
		return false
	}
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok || !sameVal(v, w) {
			return false
		}
	}
	for k, v := range a.env {
		if b.env[k] != v {
			return false
		}
	}
	return true
}

func (m *member) label() string {
	if m.name != "" {
		return m.name
	}
	return m.goName
}

// checkMember decides the member's postcondition on the state of e.
func (d *fillDriver) checkMember(e *Exec, pre *State, i int) *verdict {
	m := &d.ms[i]
	return d.t.decideMem(m.label(), e, func(x *Exec) {
		got := x.loadAt(x.st.heap[d.sobj], steps(m.path))
		if o, ok := got.(*Opq); ok && x.touched(o.t) {
			got = x.force(o)
		}
		x.owned(got, pre, d.olds[i], m.what())
		x.okMember(m, d.v, d.olds[i], got)
	})
}

// owned: what the member refers to is its own.
func (x *Exec) owned(v Val, pre *State, old Val, what string) {
	seen := map[int]bool{}
	var org *Term
	switch o := old.(type) {
	case *Opq:
		org = o.t
	case *PtrV:
		org = o.org
	case *SliceV:
		org = o.org
	case *MapV:
		org = o.org
	}
	var obj func(id int)
	var rec func(v Val)
	obj = func(id int) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		if id < pre.nextObj {
			own := false
			for key, o := range x.st.lazy {
				if o == id && org != nil {
					if li, ok := x.t.lazyInit[key]; ok && mentions(li.t, org) {
						own = true
					}
				}
			}
			if !own {
				x.fail("alias", "%s refers to storage that something else uses", what)
			}
		}
		rec(x.st.heap[id])
	}
	rec = func(v Val) {
		switch y := v.(type) {
		case *PtrV:
			if !y.nil_.isTrue() {
				obj(y.obj)
				if y.box != nil {
					rec(y.box)
				}
			}
		case *SliceV:
			obj(y.arr)
		case *MapV:
			obj(y.obj)
		case *StructV:
			for _, f := range y.f {
				rec(f)
			}
		case *Seq:
			for _, o := range y.over {
				rec(o.v)
			}
		case *CaseV:
			for _, c := range y.cases {
				rec(c.v)
			}
		}
	}
	rec(v)
}

// collapse forgets everything about the statement except which members it completed.
func (d *fillDriver) collapse(pre *live, e *Exec, mark map[int]bool, k int, complete bool) *live {
	full := &live{st: e.st, mark: mark}
	if !complete {
		return full
	}
	rest := d.body[k+1:]
	// locals that later statements use
	for o, id := range e.st.env {
		old, had := pre.st.env[o]
		if !d.t.usedIn(o, rest) && !had {
			continue
		}
		if had && old == id && d.localSame(pre.st, e.st, id) {
			continue
		}
		if had && !d.t.usedIn(o, rest) && !isErrorType(o.Type()) {
			continue
		}
		return full
	}
	if len(e.frames) > 0 && len(e.fr().defers) > 0 {
		return full
	}
	st := pre.st.clone()
	st.events = e.st.events
	x := &Exec{t: d.t, st: st, root: e.root, frames: e.frames}
	for i := range mark {
		m := &d.ms[i]
		if pre.mark[i] && !d.changed(pre.st, e, i) {
			continue
		}
		x.store(Loc{d.sobj, steps(m.path)}, d.t.symbol("mark:"+m.label(), m.T))
	}
	return &live{st: st, mark: mark}
}

func (d *fillDriver) localSame(a, b *State, id int) bool {
	x, y := a.heap[id], b.heap[id]
	if sameVal(x, y) {
		return true
	}
	ex, ok1 := x.(*ErrV)
	ey, ok2 := y.(*ErrV)
	return ok1 && ok2 && ex.nil_.isTrue() && ey.nil_.isTrue()
}

func (d *fillDriver) report(e *Exec, i int, v *verdict, s ast.Node) {
	m := &d.ms[i]
	p := token.NoPos
	if s != nil {
		p = s.Pos()
	}
	d.t.failObl(e, "member "+m.label()+" "+v.kind, v, p, m.label())
}

// failObl records a failed obligation.
func (t *Task) failObl(e *Exec, name string, v *verdict, pos token.Pos, fld string) {
	t.curFld = fld
	e.obligation(name, v.kind, false, v.detail, pos)
	t.curFld = ""
}

func (t *Task) okObl(e *Exec, name string, pos token.Pos) { e.obligation(name, "", true, "", pos) }

// returned checks the postcondition of FillFromJSON at a return.
func (d *fillDriver) returned(l *live, o outcome) {
	t, e := d.t, o.e
	if !t.feasible(e.st.pc) {
		return
	}
	pos := token.NoPos
	if len(o.ret) != 1 {
		panic(unsupported("results of FillFromJSON"))
	}
	valid := t.b.App("valid:"+d.tk, SBool, d.v)
	// split on whether the error is nil
	for _, x := range t.explore(e.st, e, func(x *Exec) {
		x.result = x.branch(x.err(o.ret[0]).nil_)
	}) {
		if x.result.(bool) {
			ok := x.prove(valid)
			x.obligation("success implies valid", "strict", ok, "decoding succeeds without (or despite) the check of the member names", pos)
			for i := range d.ms {
				if l.mark[i] && !d.changed(l.st, x, i) {
					continue
				}
				if v := d.checkMember(x, d.base.st, i); v != nil {
					d.report(x, i, v, nil)
				} else {
					t.okObl(x, "member "+d.ms[i].label(), pos)
				}
			}
			continue
		}
		if x.prove(t.b.Not(valid)) {
			t.okObl(x, "error return", pos)
			continue
		}
		d.errorReturn(l, x, x.err(o.ret[0]))
	}
}

func (d *fillDriver) errorReturn(l *live, x *Exec, ev *ErrV) {
	t := d.t
	// the error tells which member it is about
	for i := range d.ms {
		m := &d.ms[i]
		if l.mark[i] || m.tag.skip || len(ev.path) == 0 || ev.path[0] != t.b.Str(m.name) {
			continue
		}
		if t.decideMem(m.label(), x, func(y *Exec) { y.errMember(m, d.v, ev.path) }) == nil {
			t.okObl(x, "error of "+m.label(), token.NoPos)
			return
		}
	}
	for i := range d.ms {
		m := &d.ms[i]
		if l.mark[i] {
			continue
		}
		if t.decideMem(m.label(), x, func(y *Exec) { y.noErrMember(m, d.v) }) == nil {
			continue
		}
		v := t.decideMem(m.label(), x, func(y *Exec) { y.errMember(m, d.v, ev.path) })
		if v != nil {
			d.report(x, i, v, nil)
		} else {
			t.okObl(x, "error of "+m.label(), token.NoPos)
		}
		return
	}
	t.failObl(x, "error return", &verdict{kind: "spurious", detail: "decoding fails (" + ev.desc + ") although no member is at fault"}, token.NoPos, "")
}

// ---------------------------------------------------------------- FillFromJSON of other types

// transitRHS is the right-hand side T of "type N T" when T is a named type with a codec.
func (t *Task) transitRHS(n *types.Named) types.Type {
	for _, f := range t.pkg.files {
		for _, dd := range f.Decls {
			g, ok := dd.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				ts, ok := s.(*ast.TypeSpec)
				if ok && t.pkg.info.Defs[ts.Name] == n.Obj() {
					rt := t.pkg.info.Types[ts.Type].Type
					if rn := namedOf(rt); rn != nil && (hasMethod(rn, "FillFromJSON") || hasMethod(rn, "MarshalTo") || uuidLike(rn)) {
						return rt
					}
				}
			}
		}
	}
	return nil
}

func (d *fillDriver) runWhole(n *types.Named, s0 Val) {
	t := d.t
	old := d.base.pristine(s0)
	T := types.Type(n.Underlying())
	if r := t.transitRHS(n); r != nil {
		T = r
	}
	for _, x := range t.explore(d.base.st, d.base, func(x *Exec) {
		x.block(d.body)
		f := x.fr()
		r := x.finish(f)
		x.frames = append(x.frames, f)
		x.result = r[0]
		if x.branch(x.err(r[0]).nil_) {
			x.result = nil
		}
	}) {
		if x.result == nil {
			var v *verdict
			v = t.decideDev(x, func(y *Exec) {
				got := y.st.heap[d.sobj]
				if o, ok := got.(*Opq); ok && y.touched(o.t) {
					got = y.force(o)
				}
				y.owned(got, d.base.st, old, "the value")
				y.okDecode(T, d.v, old, got, dctx{what: "the value", top: true})
			})
			if v != nil {
				t.failObl(x, "value "+v.kind, v, token.NoPos, "")
			} else {
				t.okObl(x, "value", token.NoPos)
			}
			continue
		}
		ev := x.err(x.result)
		var v *verdict
		v = t.decideDev(x, func(y *Exec) { y.isErr(T, d.v, ev.path, dctx{what: "the value", top: true}) })
		if v != nil {
			t.failObl(x, "error return "+v.kind, v, token.NoPos, "")
		} else {
			t.okObl(x, "error return", token.NoPos)
		}
	}
}
