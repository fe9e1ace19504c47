package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- declarations

// tagInfo is what the field tag declares.
type tagInfo struct {
	name     string
	omit     bool
	inline   bool
	required bool
	skip     bool
	def      *string
	layout   string
}

func parseTag(tag string) tagInfo {
	st := reflect.StructTag(tag)
	var ti tagInfo
	parts := strings.Split(st.Get("json"), ",")
	ti.name = parts[0]
	for _, p := range parts[1:] {
		switch p {
		case "omitempty":
			ti.omit = true
		case "inline":
			ti.inline = true
		case "required":
			ti.required = true
		}
	}
	if ti.name == "-" {
		ti.skip = true
	}
	if d := st.Get("default"); d != "" {
		ti.def = &d
	}
	ti.layout = layoutOf(st.Get("layout"))
	return ti
}

// member is one JSON member a struct type declares, inlined ones included.
type member struct {
	path    []int
	T       types.Type
	tag     tagInfo
	name    string
	goName  string
	inlined bool
	foreign bool // the type comes from another package
	bad     bool // the verifier has no specification for it

	delegated bool // an embedded struct that handles the whole object itself
}

func membersOf(st *types.Struct, home *types.Package) []member {
	return membersAt(st, home, nil, false)
}

func membersAt(st *types.Struct, home *types.Package, pre []int, inl bool) []member {
	var ms []member
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		ti := parseTag(st.Tag(i))
		path := append(append([]int(nil), pre...), i)
		if ti.inline && ti.name == "" {
			T := f.Type()
			if u, ok := under(T).(*types.Struct); ok && !(hasField(u, f.Name()) && hasCodec(T, "FillFromJSON")) {
				ms = append(ms, membersAt(u, home, path, true)...)
				continue
			}
		}
		if f.Embedded() && ti.name == "" && hasCodec(f.Type(), "FillFromJSON") && !isPointer(f.Type()) {
			ms = append(ms, member{path: path, T: f.Type(), tag: ti, goName: f.Name(), inlined: inl,
				foreign: foreignType(f.Type(), home), delegated: true})
			continue
		}
		if ti.skip {
			ms = append(ms, member{path: path, T: f.Type(), tag: ti, goName: f.Name(), inlined: inl})
			continue
		}
		ms = append(ms, member{path: path, T: f.Type(), tag: ti, name: ti.name, goName: f.Name(), inlined: inl,
			foreign: foreignType(f.Type(), home), bad: ti.name == ""})
	}
	return ms
}

func isPointer(T types.Type) bool {
	_, ok := under(T).(*types.Pointer)
	return ok
}

// hasField: a struct with a field of its own type's name cannot be inlined.
func hasField(st *types.Struct, name string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func foreignType(T types.Type, home *types.Package) bool {
	switch t := types.Unalias(T).(type) {
	case *types.Named:
		p := t.Obj().Pkg()
		if p == nil || p == home {
			return false
		}
		return p.Path() != "time" && p.Path() != "github.com/google/uuid"
	case *types.Pointer:
		return foreignType(t.Elem(), home)
	case *types.Slice:
		return foreignType(t.Elem(), home)
	case *types.Array:
		return foreignType(t.Elem(), home)
	case *types.Map:
		return foreignType(t.Elem(), home) || foreignType(t.Key(), home)
	}
	return false
}

// hasCodec: values of type T are decoded (encoded) by a method of their own.
func hasCodec(T types.Type, method string) bool { return hasMethod(T, method) }

// ---------------------------------------------------------------- checking a predicate on a state

// mismatch is raised where the specification and the code differ.
type mismatch struct{ kind, detail string }

func (x *Exec) fail(kind, f string, a ...any) { panic(&mismatch{kind, fmt.Sprintf(f, a...)}) }

type verdict struct {
	kind, detail string
	model        map[string]string
	dev          []string
}

// decide runs the predicate f on the state on every case it distinguishes; nil means it holds on all.
func (t *Task) decide(e *Exec, f func(x *Exec)) *verdict {
	var bad *verdict
	t.quiet++
	defer func() { t.quiet-- }()
	t.explore(e.st, e, func(x *Exec) {
		if bad != nil {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				if m, ok := r.(*mismatch); ok {
					if !t.feasible(x.st.pc) {
						return
					}
					bad = &verdict{kind: m.kind, detail: m.detail, model: x.model()}
					x.pending = nil
					return
				}
				panic(r)
			}
		}()
		f(x)
	})
	return bad
}

// decideDev decides f exactly, and failing that with the listed deviations admitted.
func (t *Task) decideDev(e *Exec, f func(x *Exec)) *verdict {
	defer func(m string) { t.mem = m }(t.mem)
	v := t.decide(e, f)
	if v == nil || len(t.kf) == 0 {
		return v
	}
	saved := t.devUsed
	t.dev, t.devUsed = true, map[string]bool{}
	w := t.decide(e, f)
	t.dev = false
	used := t.devUsed
	t.devUsed = saved
	if w == nil && len(used) > 0 {
		for k := range used {
			v.dev = append(v.dev, k)
			if t.devUsed == nil {
				t.devUsed = map[string]bool{}
			}
			t.devUsed[k] = true
		}
		return nil
	}
	if debugLoops && w != nil {
		v.detail += " {with deviations: " + w.detail + "}"
	}
	return v
}

// decideMem is decideDev for the contract of one member.
func (t *Task) decideMem(mem string, e *Exec, f func(x *Exec)) *verdict {
	return t.decideDev(e, func(x *Exec) {
		t.mem = mem
		f(x)
	})
}

// deviate: the specification may follow the recorded deviation id here.
func (x *Exec) deviate(id string) bool {
	if x.t.dev && x.t.allowed(id) {
		x.t.use(id)
		return true
	}
	return false
}

func (x *Exec) deviateIf(id string, c bool) bool { return c && x.deviate(id) }

// allowed: the deviation is listed for the member under consideration.
func (t *Task) allowed(id string) bool { return t.kf["*"] || t.kf[id+"@"+t.mem] }

func (t *Task) use(id string) { t.devUsed[id+"@"+t.mem] = true }

// instantiate uses what the loops of the path established for index w.
func (x *Exec) instantiate(w *Term) {
	b := x.b()
	for _, f := range append([]*Forall(nil), x.st.fas...) {
		if w == f.idx {
			continue
		}
		if !x.prove(b.And(b.Le(b.Int(0), w), b.Lt(w, f.n))) {
			continue
		}
		if len(f.cases) == 0 {
			x.kill()
		}
		live := x.liveCases(f, w)
		if len(live) == 0 {
			x.kill()
		}
		c := live[x.choose(len(live))]
		in := x.t.substCond(f.cases[c], f.idx, w)
		for _, t := range in.ts {
			x.assume(t)
		}
		x.st.fas = append(x.st.fas, in.fas...)
		if !x.t.feasible(x.st.pc) {
			x.kill()
		}
	}
}

// liveCases returns the cases of f that the path condition does not refute at w for a reason that is visible at once:
// a conjunct whose negation is assumed, or an equation of a term with a constant other than the assumed one.
func (x *Exec) liveCases(f *Forall, w *Term) []int {
	b := x.b()
	consts := map[int]*Term{}
	for _, p := range x.st.pc {
		if p.op == "=" {
			for i := range p.args {
				if p.args[i].op == "str" {
					consts[p.args[1-i].id] = p.args[i]
				}
			}
		}
	}
	var live []int
	for i, c := range f.cases {
		ok := true
		for _, t := range c.ts {
			e, neg := t, false
			if e.op == "not" {
				e, neg = e.args[0], true
			}
			if e.op != "=" || e.args[0].op != "str" && e.args[1].op != "str" {
				continue
			}
			g := b.Subst(e, f.idx, w)
			for k := range g.args {
				if g.op != "=" || g.args[k].op != "str" {
					continue
				}
				if v := consts[g.args[1-k].id]; v != nil && (v == g.args[k]) == neg {
					ok = false
				}
			}
			if !ok {
				break
			}
		}
		if ok {
			live = append(live, i)
		}
	}
	return live
}

// index introduces an arbitrary index below n.
func (x *Exec) index_(n *Term) (*Term, bool) {
	b := x.b()
	w := x.fresh("w", SInt)
	c := b.And(b.Le(b.Int(0), w), b.Lt(w, n))
	x.assume(c)
	if !x.t.feasible(x.st.pc) {
		return w, false
	}
	x.instantiate(w)
	return w, true
}

// ---------------------------------------------------------------- equality of values

func (x *Exec) equal(T types.Type, got, want Val, kind, what string) {
	b := x.b()
	got, want = x.force1(got), x.force1(want)
	if bs, ok := got.(*BorrowS); ok {
		x.fail("alias", "%s shares memory with the input", what)
		got = bs.t
	}
	if gt, ok := got.(*Term); ok {
		wt, ok := want.(*Term)
		if !ok {
			wt = x.reifyT(want, T)
		}
		if gt == wt {
			return
		}
		if gt.sort != wt.sort {
			x.fail(kind, "%s is %s, want %s", what, gt, wt)
		}
		if !x.prove(b.Eq(gt, wt)) {
			x.fail(kind, "%s is %s, want %s", what, gt, wt)
		}
		return
	}
	g, w := x.reifyT(got, T), x.reifyT(want, T)
	if g == w {
		return
	}
	if n := namedOf(T); n != nil && hasMethod(T, "FillFromJSON") && w.op == "app" && strings.Contains(w.name, "fill:") {
		x.fail(kind, "%s is %s, want %s", what, g, w)
	}
	switch u := under(T).(type) {
	case *types.Pointer:
		gp, ok1 := x.force(got).(*PtrV)
		wp, ok2 := x.force(want).(*PtrV)
		if ok1 && ok2 {
			if !x.prove(b.Eq(gp.nil_, wp.nil_)) {
				x.fail(kind, "%s: nil is %s, want %s", what, gp.nil_, wp.nil_)
			}
			if x.branch(gp.nil_) {
				return
			}
			x.equal(u.Elem(), x.load(x.ptrLoc(gp)), x.load(x.ptrLoc(wp)), kind, "*"+what)
			return
		}
	case *types.Slice:
		gs, ok1 := x.force(got).(*SliceV)
		ws, ok2 := x.force(want).(*SliceV)
		if ok1 && ok2 {
			if !x.prove(b.And(b.Eq(gs.nil_, ws.nil_), b.Eq(gs.len, ws.len))) {
				x.fail(kind, "%s: length %s (nil %s), want %s (nil %s)", what, gs.len, gs.nil_, ws.len, ws.nil_)
			}
			i, ok := x.index_(gs.len)
			if ok {
				x.equal(u.Elem(), x.sliceAt(gs, i), x.sliceAt(ws, i), kind, what+"[i]")
			}
			return
		}
	case *types.Array:
		gs, ok1 := x.force(got).(*Seq)
		ws, ok2 := x.force(want).(*Seq)
		if ok1 && ok2 {
			i, ok := x.index_(b.Int(u.Len()))
			if ok {
				x.equal(u.Elem(), x.seqAt(gs, i), x.seqAt(ws, i), kind, what+"[i]")
			}
			return
		}
	case *types.Struct:
		gs, ok1 := x.force(got).(*StructV)
		ws, ok2 := x.force(want).(*StructV)
		if ok1 && ok2 {
			for i := range gs.f {
				x.equal(u.Field(i).Type(), gs.f[i], ws.f[i], kind, what+"."+u.Field(i).Name())
			}
			return
		}
	case *types.Map:
		gm, ok1 := x.force(got).(*MapV)
		wm, ok2 := x.force(want).(*MapV)
		if ok1 && ok2 && x.prove(b.Eq(gm.nil_, wm.nil_)) && sameVal(x.mapC(gm), x.mapC(wm)) {
			return
		}
	}
	x.fail(kind, "%s is %s, want %s", what, showVal(got), showVal(want))
}

// ---------------------------------------------------------------- decoding

// nullable: JSON null can be represented by leaving the member unset.
func nullable(T types.Type) bool {
	if uuidLike(T) {
		return false
	}
	switch under(T).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Array:
		return true
	}
	return false
}

// nullableMember: null leaves a member of type T unset.
func (x *Exec) nullableMember(T types.Type, j *Term) bool {
	T = x.decView(T, j)
	return nullable(T) && !hasCodec(T, "FillFromJSON")
}

func isByteSeq(T types.Type) (isArr bool, n int64, ok bool) {
	switch u := under(T).(type) {
	case *types.Slice:
		if bt, is := types.Unalias(u.Elem()).(*types.Basic); is && bt.Name() == "byte" {
			return false, 0, true
		}
	case *types.Array:
		if bt, is := types.Unalias(u.Elem()).(*types.Basic); is && bt.Name() == "byte" {
			return true, u.Len(), true
		}
	}
	return false, 0, false
}

// leafOK is the condition under which the JSON value j is acceptable for the scalar-like type T; ok is false when
// T is a composite type.
func (x *Exec) leafOK(T types.Type, j *Term, layout string) (*Term, bool) {
	b := x.b()
	if hasCodec(T, "FillFromJSON") {
		return b.App("ok:"+typeKey(T), SBool, j), true
	}
	str := x.jtypeIs(j, jString)
	s := b.App("jstr", SStr, j)
	if timeLike(T) {
		if layout != "" {
			return b.And(str, b.App("tparse_ok", SBool, b.Str(layout), s)), true
		}
		return b.And(str, b.App("dt_ok", SBool, s)), true
	}
	if uuidLike(T) {
		return b.And(str, b.App("uuid_ok", SBool, s)), true
	}
	if isArr, n, ok := isByteSeq(T); ok {
		c := b.And(str, b.App("b64ok", SBool, s))
		if isArr {
			c = b.And(c, b.Eq(b.App("b64n", SInt, s), b.Int(n)))
		}
		return c, true
	}
	bt, ok := under(T).(*types.Basic)
	if !ok {
		return nil, false
	}
	switch {
	case bt.Info()&types.IsBoolean != 0:
		return b.Or(x.jtypeIs(j, jTrue), x.jtypeIs(j, jFalse)), true
	case bt.Info()&types.IsString != 0:
		return str, true
	case bt.Info()&types.IsInteger != 0:
		lo, hi, _ := intRange(T)
		if bt.Info()&types.IsUnsigned != 0 {
			v := b.App("juint", SInt, j)
			return b.And(b.App("juint_ok", SBool, j), b.Le(v, b.Big(hi))), true
		}
		v := b.App("jint", SInt, j)
		return b.And(b.App("jint_ok", SBool, j), b.Le(b.Big(lo), v), b.Le(v, b.Big(hi))), true
	case bt.Kind() == types.Float32:
		v := b.App("jflt", SF64, j)
		m := x.floatConst(math.MaxFloat32, SF64)
		nm := x.floatConst(-math.MaxFloat32, SF64)
		return b.And(b.App("jflt_ok", SBool, j), b.Not(b.mk("fp.lt", "", SBool, []*Term{m, v})), b.Not(b.mk("fp.lt", "", SBool, []*Term{v, nm}))), true
	case bt.Kind() == types.Float64:
		return b.App("jflt_ok", SBool, j), true
	}
	panic(unsupported("no decoding specification for %s", T))
}

// kindOK: j has a JSON kind that T can hold, whatever its value (used to tell range failures from kind failures).
func (x *Exec) numOK(T types.Type, j *Term) *Term {
	b := x.b()
	bt, ok := under(T).(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case bt.Info()&types.IsInteger != 0 && bt.Info()&types.IsUnsigned != 0:
		return b.App("juint_ok", SBool, j)
	case bt.Info()&types.IsInteger != 0:
		return b.App("jint_ok", SBool, j)
	case bt.Kind() == types.Float32, bt.Kind() == types.Float64:
		return b.App("jflt_ok", SBool, j)
	}
	return nil
}

// leafVal is the value of type T that j carries, assuming leafOK. old is what the place held before.
func (x *Exec) leafVal(T types.Type, j *Term, layout string, old Val) Val {
	b := x.b()
	if hasCodec(T, "FillFromJSON") {
		return x.t.symbol("fill:"+typeKey(T), T, x.reifyT(old, T), j)
	}
	s := b.App("jstr", SStr, j)
	if timeLike(T) {
		if layout != "" {
			return b.App("tparse", SU, b.Str(layout), s)
		}
		return b.App("dt", SU, s)
	}
	if uuidLike(T) {
		return b.App("uuid_of", SU, s)
	}
	bt, ok := under(T).(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case bt.Info()&types.IsBoolean != 0:
		return x.jtypeIs(j, jTrue)
	case bt.Info()&types.IsString != 0:
		return s
	case bt.Info()&types.IsUnsigned != 0:
		return b.App("juint", SInt, j)
	case bt.Info()&types.IsInteger != 0:
		return b.App("jint", SInt, j)
	case bt.Kind() == types.Float32:
		return b.mk("tofp32", "", SF32, []*Term{b.App("jflt", SF64, j)})
	}
	return b.App("jflt", SF64, j)
}

type dctx struct {
	layout string
	elem   bool   // an element of a list or map
	what   string // for messages
	fresh  int    // objects with smaller numbers existed before the statement
	ranged bool   // range checks of numbers are known to be missing here
	top    bool   // the value of a named type, decoded by its own method
}

// topNull: for a named collection null means "leave it as it is".
func topNull(T types.Type) bool {
	if hasCodec(T, "FillFromJSON") {
		return false
	}
	switch under(T).(type) {
	case *types.Slice, *types.Map, *types.Array:
		return !uuidLike(T)
	}
	return false
}

// okDecode: decoding j as T succeeds and gives got.
func (x *Exec) okDecode(T types.Type, j *Term, old, got Val, c dctx) {
	b := x.b()
	T = x.decView(T, j)
	if c.top && topNull(T) && x.branch(x.jtypeIs(j, jNull)) {
		_, _, bytes := isByteSeq(T)
		x.nullLeft(T, old, got, c.what, bytes)
		return
	}
	if ok, is := x.leafOK(T, j, c.layout); is {
		if !x.branch(ok) {
			x.leafNot(T, j, got, c)
			return
		}
		if isArr, n, isB := isByteSeq(T); isB && !uuidLike(T) && !hasCodec(T, "FillFromJSON") {
			x.okBytes(T, j, got, isArr, n, c)
			return
		}
		x.noShare(got, c)
		if c.top && hasCodec(T, "FillFromJSON") && x.t.dev && x.t.allowed("transit-from-zero") {
			if x.reifyT(got, T) == x.reifyT(x.leafVal(T, j, c.layout, x.zeroVal(T)), T) && x.deviate("transit-from-zero") {
				return
			}
		}
		x.equal(T, got, x.leafVal(T, j, c.layout, old), "value", c.what)
		return
	}
	switch u := under(T).(type) {
	case *types.Pointer:
		if c.elem && x.branch(x.jtypeIs(j, jNull)) {
			p, ok := x.force(got).(*PtrV)
			if !ok || !x.prove(p.nil_) {
				x.fail("null", "%s: null does not give nil", c.what)
			}
			return
		}
		p, ok := x.force(got).(*PtrV)
		if !ok {
			x.fail("value", "%s is %s", c.what, showVal(got))
		}
		if !x.prove(b.Not(p.nil_)) {
			x.fail("value", "%s is nil although a value is present", c.what)
		}
		x.noShare(p, c)
		d := c
		d.what, d.elem = "*"+c.what, false
		x.okDecode(u.Elem(), j, x.zeroVal(u.Elem()), x.load(x.ptrLoc(p)), d)
	case *types.Slice:
		x.okList(T, u.Elem(), j, old, got, c)
	case *types.Array:
		if !x.branch(x.jtypeIs(j, jArray)) || !x.branch(b.Eq(b.App("jlen", SInt, j), b.Int(u.Len()))) {
			if c.elem && x.branch(x.jtypeIs(j, jNull)) && x.deviate("null-array-element") {
				return
			}
			x.fail("kind", "%s: a value that is not an array of length %d is accepted", c.what, u.Len())
		}
		i, ok := x.index_(b.Int(u.Len()))
		if !ok {
			return
		}
		q, isS := x.force(got).(*Seq)
		if !isS {
			x.fail("value", "%s is %s", c.what, showVal(got))
		}
		d := c
		d.what, d.elem, d.layout = c.what+"[i]", true, ""
		d.ranged, d.top = true, false
		x.okDecode(u.Elem(), b.App("jat", SJV, j, i), x.zeroVal(u.Elem()), x.force1(x.seqAt(q, i)), d)
	case *types.Map:
		x.okMap(u, j, old, got, c)
	default:
		panic(unsupported("no decoding specification for %s", T))
	}
}

// leafNot: j is not acceptable for T, yet the code went on.
func (x *Exec) leafNot(T types.Type, j *Term, got Val, c dctx) {
	if isArr, _, isB := isByteSeq(T); isB && !isArr && !uuidLike(T) && c.elem && x.branch(x.jtypeIs(j, jNull)) {
		// an element that is null has no bytes
		if s, ok := x.force(got).(*SliceV); ok && x.prove(x.b().Eq(s.len, x.b().Int(0))) {
			return
		}
	}
	if n := x.numOK(T, j); n != nil && x.branch(n) {
		// the number has the right form but does not fit
		if x.rangeDeviation(T, j, c) {
			return
		}
		x.fail("range", "%s: a number that does not fit %s is accepted", c.what, T)
	}
	x.fail("kind", "%s: a value that %s cannot hold is accepted", c.what, T)
}

// rangeDeviation: the recorded deviations about number ranges cover this case.
func (x *Exec) rangeDeviation(T types.Type, j *Term, c dctx) bool {
	b := x.b()
	bt := under(T).(*types.Basic)
	var below *Term
	switch {
	case bt.Info()&types.IsUnsigned != 0:
		below = b.F
	case bt.Info()&types.IsInteger != 0:
		lo, _, _ := intRange(T)
		below = b.Lt(b.App("jint", SInt, j), b.Big(lo))
	case bt.Kind() == types.Float32:
		below = b.mk("fp.lt", "", SBool, []*Term{b.App("jflt", SF64, j), x.floatConst(-math.MaxFloat32, SF64)})
	default:
		below = b.F
	}
	if c.ranged {
		return x.deviate("range-elements")
	}
	if c.top {
		return x.deviate("range-named")
	}
	if x.branch(below) {
		return x.deviate("range-below-minimum")
	}
	return x.deviate("range-unchecked")
}

// noShare: what a decoded value points to was made for it.
func (x *Exec) noShare(v Val, c dctx) {
	switch y := x.force1(v).(type) {
	case *BorrowS:
		x.fail("alias", "%s shares memory with the input", c.what)
	case *BytesV:
		if y.borrowed {
			x.fail("alias", "%s shares memory with the input", c.what)
		}
	case *PtrV:
		if c.elem && y.obj != 0 && len(y.path) == 0 && !y.nil_.isTrue() {
			x.fail("alias", "%s: all elements share one object", c.what)
		}
	}
}

func (x *Exec) okBytes(T types.Type, j *Term, got Val, isArr bool, n int64, c dctx) {
	b := x.b()
	s := b.App("jstr", SStr, j)
	want := b.App("b64bytes", SU, s)
	wn := b.App("b64n", SInt, s)
	var q *Seq
	var off, ln *Term
	switch y := x.force(got).(type) {
	case *Seq:
		q, off, ln = y, b.Int(0), b.Int(n)
	case *SliceV:
		q, off, ln = x.seqOf(y), y.off, y.len
	case *BytesV:
		x.fail("alias", "%s: bytes of the document are kept", c.what)
	default:
		x.fail("value", "%s is %s", c.what, showVal(got))
	}
	if !x.prove(b.Eq(ln, wn)) {
		x.fail("value", "%s: %s bytes, want %s", c.what, ln, wn)
	}
	i, ok := x.index_(ln)
	if !ok {
		return
	}
	g := x.force1(x.seqAt(q, b.Add(off, i)))
	w := x.at(want, i, types.Typ[types.Byte])
	x.equal(types.Typ[types.Byte], g, w, "value", c.what+"[i]")
}

func (x *Exec) okList(T, E types.Type, j *Term, old, got Val, c dctx) {
	b := x.b()
	if !x.branch(x.jtypeIs(j, jArray)) {
		if c.elem && x.branch(x.jtypeIs(j, jNull)) {
			// null where a list is expected: the element is nil or left unset
			if s, ok := x.force(got).(*SliceV); ok && x.prove(b.Eq(s.len, b.Int(0))) {
				return
			}
		}
		x.fail("kind", "%s: a value that is not an array is accepted", c.what)
	}
	s, ok := x.force(got).(*SliceV)
	if !ok {
		x.fail("value", "%s is %s", c.what, showVal(got))
	}
	n := b.App("jlen", SInt, j)
	if !x.prove(b.Eq(s.len, n)) {
		x.fail("list", "%s has %s elements, want %s", c.what, s.len, n)
	}
	if x.t.listNonNil && !x.prove(b.Not(s.nil_)) {
		x.fail("list", "%s is nil for a present array", c.what)
	}
	i, ok := x.index_(n)
	if !ok {
		return
	}
	d := c
	d.what, d.elem, d.layout = c.what+"[i]", true, ""
	d.ranged, d.top = true, false
	g := x.sliceAt(s, i)
	e := b.App("jat", SJV, j, i)
	if E := x.decView(E, e); hasCodec(E, "FillFromJSON") && x.t.dev {
		// elements decoded in place over what the storage held before
		if gt := x.reifyT(g, E); c.elem && gt.op == "app" && gt.name == "fill:"+typeKey(E) && gt.args[1] == e && mentionsStorage(gt.args[0]) {
			if okT, _ := x.leafOK(E, e, ""); x.branch(okT) && x.deviate("list-merges-old-elements") {
				return
			}
		}
		o, isS := x.force(old).(*SliceV)
		if isS && s.org == o.org && s.org != nil {
			if okT, _ := x.leafOK(E, e, ""); x.branch(okT) {
				w := x.leafVal(E, e, "", x.sliceAt(o, i))
				if x.reifyT(g, E) == x.reifyT(w, E) && x.deviate("list-merges-old-elements") {
					return
				}
			}
		}
	}
	x.okDecode(E, e, x.zeroVal(E), g, d)
}

// mentionsStorage: t is an element of a list that existed before.
func mentionsStorage(t *Term) bool { return t.op == "app" && t.name == "at" }

func (x *Exec) okMap(u *types.Map, j *Term, old, got Val, c dctx) {
	b := x.b()
	if !x.branch(x.jtypeIs(j, jObject)) {
		if c.elem && x.branch(x.jtypeIs(j, jNull)) {
			if m, ok := x.force(got).(*MapV); ok && x.prove(m.nil_) {
				return
			}
		}
		x.fail("kind", "%s: a value that is not an object is accepted", c.what)
	}
	m, ok := x.force(got).(*MapV)
	if !ok {
		x.fail("value", "%s is %s", c.what, showVal(got))
	}
	if !x.prove(b.Not(m.nil_)) {
		x.fail("map", "%s is nil although an object is present", c.what)
	}
	mc := x.mapC(m)
	keep := false // the entries present before are kept
	if om, ok := x.force(old).(*MapV); ok && !c.elem && !c.top && !om.nil_.isTrue() {
		if !x.branch(om.nil_) {
			keep = true
			if mc.org != om.org {
				x.fail("map", "%s loses the entries it had", c.what)
			}
		}
	}
	if !keep && mc.org != nil && !(c.elem && mentionsStorage(mc.org) && x.deviate("list-merges-old-elements")) {
		if om, ok := x.force(old).(*MapV); c.top || !(ok && mc.org == om.org && x.prove(om.nil_)) {
			x.fail("map", "%s starts from other content", c.what)
		}
	}
	n := b.App("jolen", SInt, j)
	var fold *Fold
	for _, op := range mc.ops {
		if op.kind != "fold" || fold != nil {
			x.fail("map", "%s: entries other than those of the document are written", c.what)
		}
		fold = op.fold
	}
	i, ok := x.index_(n)
	if !ok {
		return
	}
	if fold == nil {
		x.fail("map", "%s: entries of the document are not stored", c.what)
	}
	if !x.prove(b.Eq(fold.n, n)) {
		x.fail("map", "%s: not every entry is stored", c.what)
	}
	for k, fc := range fold.cases {
		cond := x.t.b.Subst(fc.cond, fold.idx, i)
		if k < len(fold.cases)-1 && !x.branch(cond) {
			continue
		}
		ops := x.t.substOps(fc.ops, fold.idx, i)
		if len(ops) != 1 || ops[0].kind != "set" {
			x.fail("map", "%s: an entry is written %d times", c.what, len(ops))
		}
		kt := x.reify(ops[0].k)
		if kt != b.App("jkey", SStr, j, i) && !x.prove(b.Eq(kt, b.App("jkey", SStr, j, i))) {
			x.fail("map", "%s: an entry is stored under %s instead of its own key", c.what, kt)
		}
		d := c
		d.what, d.elem, d.layout, d.ranged, d.top = c.what+"[key]", true, "", true, false
		x.okDecode(u.Elem(), b.App("jval", SJV, j, i), x.zeroVal(u.Elem()), x.force1(ops[0].v), d)
		return
	}
}

// noErr: the specification has no objection to decoding j as T.
func (x *Exec) noErr_(T types.Type, j *Term, c dctx) {
	b := x.b()
	T = x.decView(T, j)
	if ok, is := x.leafOK(T, j, c.layout); is {
		if x.branch(ok) {
			return
		}
		if n := x.numOK(T, j); n != nil && x.branch(n) && x.rangeDeviation(T, j, c) {
			return
		}
		if isArr, _, isB := isByteSeq(T); isB && !isArr && !uuidLike(T) && c.elem && x.branch(x.jtypeIs(j, jNull)) {
			return
		}
		x.fail("kind", "%s: the value is not acceptable", c.what)
	}
	switch u := under(T).(type) {
	case *types.Pointer:
		if c.elem && x.branch(x.jtypeIs(j, jNull)) {
			return
		}
		x.noErr_(u.Elem(), j, dctx{layout: c.layout, what: c.what, ranged: c.ranged})
	case *types.Slice, *types.Array:
		if c.elem && x.branch(x.jtypeIs(j, jNull)) {
			return
		}
		if !x.branch(x.jtypeIs(j, jArray)) {
			x.fail("kind", "%s: not an array", c.what)
		}
		n := b.App("jlen", SInt, j)
		E := elemOf(u)
		if a, ok := u.(*types.Array); ok && !x.branch(b.Eq(n, b.Int(a.Len()))) {
			x.fail("kind", "%s: length", c.what)
		}
		i, ok := x.index_(n)
		if !ok {
			return
		}
		x.noErr_(E, b.App("jat", SJV, j, i), dctx{elem: true, what: c.what + "[i]", ranged: true})
	case *types.Map:
		if c.elem && x.branch(x.jtypeIs(j, jNull)) {
			return
		}
		if !x.branch(x.jtypeIs(j, jObject)) {
			x.fail("kind", "%s: not an object", c.what)
		}
		i, ok := x.index_(b.App("jolen", SInt, j))
		if !ok {
			return
		}
		x.noErr_(u.Elem(), b.App("jval", SJV, j, i), dctx{elem: true, what: c.what + "[key]", ranged: true})
	default:
		panic(unsupported("no decoding specification for %s", T))
	}
}

func elemOf(u types.Type) types.Type {
	switch a := u.(type) {
	case *types.Slice:
		return a.Elem()
	case *types.Array:
		return a.Elem()
	case *types.Map:
		return a.Elem()
	case *types.Pointer:
		return a.Elem()
	}
	return nil
}

// isErr: decoding j as T fails; path is what the code reports as the location below this value.
func (x *Exec) isErr(T types.Type, j *Term, path []*Term, c dctx) {
	b := x.b()
	T = x.decView(T, j)
	leafPath := func() {
		if len(path) != 0 {
			x.fail("path", "%s: the error carries the extra path %v", c.what, path)
		}
	}
	if c.top && topNull(T) && x.branch(x.jtypeIs(j, jNull)) {
		if _, ok := under(T).(*types.Array); ok {
			leafPath() // a fixed array has no null form: refusing it is as good as leaving it unset
			return
		}
		if x.deviate("null-named-collection") {
			if len(path) != 1 || path[0] != b.Str("") || !x.deviate("path-empty-root") {
				leafPath()
			}
			return
		}
		x.fail("null", "%s: null is refused", c.what)
	}
	if ok, is := x.leafOK(T, j, c.layout); is {
		if c.top && len(path) == 1 && path[0] == b.Str("") && x.deviate("path-empty-root") {
			path = nil
		}
		if c.top && len(path) == 1 && path[0] == b.Str("(root)") && x.deviate("path-root-marker") {
			path = nil
		}
		if !x.prove(b.Not(ok)) {
			x.fail("spurious", "%s: an acceptable value is refused", c.what)
		}
		leafPath()
		return
	}
	switch u := under(T).(type) {
	case *types.Pointer:
		if c.elem && x.branch(x.jtypeIs(j, jNull)) {
			x.fail("null", "%s: null is refused", c.what)
		}
		x.isErr(u.Elem(), j, path, dctx{layout: c.layout, what: c.what})
	case *types.Slice, *types.Array:
		if !x.branch(x.jtypeIs(j, jArray)) {
			if c.top && len(path) == 1 && path[0] == b.Str("") && x.deviate("path-empty-root") {
				return
			}
			leafPath()
			return
		}
		n := b.App("jlen", SInt, j)
		E := elemOf(u)
		if a, ok := u.(*types.Array); ok && !x.branch(b.Eq(n, b.Int(a.Len()))) {
			leafPath()
			return
		}
		x.elemErr(E, j, n, "jat", path, c)
	case *types.Map:
		if !x.branch(x.jtypeIs(j, jObject)) {
			leafPath()
			return
		}
		x.elemErr(u.Elem(), j, b.App("jolen", SInt, j), "jval", path, c)
	default:
		panic(unsupported("no decoding specification for %s", T))
	}
}

func (x *Exec) elemErr(E types.Type, j, n *Term, sel string, path []*Term, c dctx) {
	b := x.b()
	var k *Term
	for i := len(x.st.wits) - 1; i >= 0; i-- {
		w := x.st.wits[i]
		if x.prove(b.And(b.Le(b.Int(0), w), b.Lt(w, n))) && x.mentionsElem(sel, j, w) {
			k = w
			break
		}
	}
	if k == nil {
		x.fail("spurious", "%s: refused although no element is at fault", c.what)
	}
	d := dctx{elem: true, what: c.what + "[k]", ranged: true}
	name := x.itoa(k)
	if sel == "jval" {
		name = b.App("jkey", SStr, j, k)
	}
	rest := path
	switch {
	case len(path) > 0 && path[0] == name:
		rest = path[1:]
	case x.deviate("path-of-elements"):
		rest = nil
	default:
		x.fail("path", "%s: the path is %v, want it to continue with the position %s", c.what, path, name)
	}
	if len(rest) == 0 && x.t.dev {
		// below a deviating location nothing is compared
		x.isErrAny(E, b.App(sel, SJV, j, k), d)
	} else {
		x.isErr(E, b.App(sel, SJV, j, k), rest, d)
	}
	// the elements before it are fine
	if i, ok := x.index_(k); ok {
		x.noErr_(E, b.App(sel, SJV, j, i), d)
	}
}

// isErrAny is isErr without a requirement on the path.
func (x *Exec) isErrAny(T types.Type, j *Term, c dctx) {
	v := x.t.decide(x, func(y *Exec) { y.isErr(T, j, nil, c) })
	if v != nil && v.kind != "path" {
		x.fail(v.kind, "%s", v.detail)
	}
}

func (x *Exec) mentionsElem(sel string, j, k *Term) bool {
	el := x.b().App(sel, SJV, j, k)
	for _, p := range x.st.pc {
		if mentions(p, el) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- members

// defaultVal is the value of type T that the text of a default tag denotes.
func (x *Exec) defaultVal(T types.Type, s string) Val {
	b := x.b()
	bt, ok := under(T).(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case bt.Info()&types.IsString != 0:
		return b.Str(s)
	case bt.Info()&types.IsBoolean != 0:
		return b.Bool(s == "true")
	case bt.Info()&types.IsInteger != 0:
		n, ok := new(big.Int).SetString(s, 0)
		if !ok {
			return nil
		}
		return b.Big(n)
	case bt.Info()&types.IsFloat != 0:
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return nil
		}
		srt, _ := scalarSort(T)
		return x.floatConst(f, srt)
	}
	return nil
}

func (x *Exec) eqDefault(T types.Type, got Val, s, what string) {
	if p, ok := under(T).(*types.Pointer); ok {
		pv, ok := x.force(got).(*PtrV)
		if !ok || !x.prove(x.b().Not(pv.nil_)) {
			x.fail("default", "%s is nil instead of its default", what)
		}
		x.eqDefault(p.Elem(), x.load(x.ptrLoc(pv)), s, "*"+what)
		return
	}
	w := x.defaultVal(T, s)
	if w == nil {
		panic(unsupported("default of type %s", T))
	}
	x.equal(T, got, w, "default", what)
}

func (m *member) what() string { return "member " + strconv.Quote(m.label()) }

// okMember: decoding object v leaves got in the member's place.
func (x *Exec) okMember(m *member, v *Term, old, got Val) {
	b := x.b()
	if m.tag.skip {
		x.equal(m.T, got, old, "value", "ignored field "+m.goName)
		return
	}
	if m.delegated {
		x.okDecode(m.T, v, old, got, dctx{what: m.what()})
		return
	}
	j := b.App("jget", SJV, v, b.Str(m.name))
	if x.branch(x.jnil(j)) {
		switch {
		case m.tag.def != nil:
			x.eqDefault(m.T, got, *m.tag.def, m.what())
		case m.tag.required:
			x.fail("required", "%s is required, but decoding succeeds without it", m.what())
		default:
			x.equal(m.T, got, old, "absent", m.what()+" (absent)")
		}
		return
	}
	if x.nullableMember(m.T, j) && x.branch(x.jtypeIs(j, jNull)) {
		_, _, bytes := isByteSeq(m.T)
		if m.tag.required {
			if !x.deviateIf("null-required-bytes", bytes && namedOf(m.T) != nil) {
				x.fail("required", "%s is required, but null is accepted", m.what())
			}
		}
		if m.tag.def != nil && x.t.allowed("null-sets-default") && x.t.dev {
			if x.t.decide(x, func(y *Exec) { y.eqDefault(m.T, got, *m.tag.def, m.what()) }) == nil && x.deviate("null-sets-default") {
				return
			}
		}
		x.nullLeft(m.T, old, got, m.what(), bytes)
		return
	}
	x.okDecode(m.T, j, old, got, dctx{layout: m.tag.layout, what: m.what()})
}

// nullLeft: after null the value is as before; a sequence of bytes may also be unset.
func (x *Exec) nullLeft(T types.Type, old, got Val, what string, bytes bool) {
	if bytes && x.t.decide(x, func(y *Exec) { y.equal(T, got, y.zeroVal(T), "null", "") }) == nil {
		return
	}
	x.equal(T, got, old, "null", what+" (null)")
}

// noErrMember: the member gives no reason to fail.
func (x *Exec) noErrMember(m *member, v *Term) {
	if m.tag.skip {
		return
	}
	if m.delegated {
		x.noErr_(m.T, v, dctx{what: m.what()})
		return
	}
	j := x.b().App("jget", SJV, v, x.b().Str(m.name))
	if x.branch(x.jnil(j)) {
		if m.tag.required && m.tag.def == nil {
			x.fail("required", "%s is missing", m.what())
		}
		return
	}
	if x.nullableMember(m.T, j) && x.branch(x.jtypeIs(j, jNull)) {
		_, _, bytes := isByteSeq(m.T)
		if m.tag.required && !x.deviateIf("null-required-bytes", bytes && namedOf(m.T) != nil) {
			x.fail("required", "%s is null", m.what())
		}
		return
	}
	x.noErr_(m.T, j, dctx{layout: m.tag.layout, what: m.what()})
}

// errMember: the member makes decoding fail, and the error is located at path.
func (x *Exec) errMember(m *member, v *Term, path []*Term) {
	b := x.b()
	if m.tag.skip {
		x.fail("spurious", "ignored field %s makes decoding fail", m.goName)
	}
	if m.delegated {
		if len(path) > 0 && path[0] == b.Str("") && x.deviate("path-empty-root") {
			path = path[1:]
		}
		x.isErr(m.T, v, path, dctx{what: m.what()})
		return
	}
	own := func() []*Term {
		if len(path) == 0 || path[0] != b.Str(m.name) {
			if x.deviate("path-of-member") {
				return nil
			}
			x.fail("path", "%s: the error is located at %v", m.what(), path)
		}
		return path[1:]
	}
	j := b.App("jget", SJV, v, b.Str(m.name))
	if x.branch(x.jnil(j)) {
		if m.tag.required && m.tag.def == nil {
			own()
			return
		}
		x.fail("spurious", "%s: absence is refused", m.what())
	}
	if x.nullableMember(m.T, j) && x.branch(x.jtypeIs(j, jNull)) {
		if m.tag.required {
			own()
			return
		}
		if _, ok := under(m.T).(*types.Array); ok {
			own() // a fixed array has no null form: refusing it is as good as leaving it unset
			return
		}
		if _, al := m.T.(*types.Alias); (al || namedOf(m.T) != nil) && x.deviate("null-named-collection") {
			return
		}
		x.fail("null", "%s: null is refused", m.what())
	}
	rest := own()
	if x.t.dev && len(rest) == 0 {
		x.isErrAny(m.T, j, dctx{layout: m.tag.layout, what: m.what()})
		return
	}
	x.isErr(m.T, j, rest, dctx{layout: m.tag.layout, what: m.what()})
}

var _ = ast.NewIdent
var _ = token.NoPos
