package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// ---------------------------------------------------------------- validate

func (t *Task) verifyValidate(n *types.Named, strict bool) {
	fd := t.pkg.methods[n.Obj().Name()+".validate"]
	if fd == nil || fd.Body == nil {
		panic(unsupported("no validate"))
	}
	u, ok := n.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("validate of %s", n))
	}
	t.method, t.typ = "validate", n
	b := t.b
	st := newState()
	e := t.begin(fd, st)
	v := b.App("v", SJV)
	st.assume(b.Not(e.jnil(v)))
	t.bindRecv(e, fd, n, t.symbol("s0", n), b.F)
	e.bindParams(t.pkg.info, fd.Type, []Val{v})
	var names []string
	for _, m := range membersOf(u, t.pkg.types) {
		if m.name != "" && !m.tag.skip {
			names = append(names, m.name)
		}
	}
	t.names = names
	known := names
	for _, m := range membersOf(u, t.pkg.types) {
		if m.delegated {
			known = append(append([]string(nil), names...), "") // the embedded struct's place has the empty name
		}
	}
	N := b.App("jolen", SInt, v)
	for _, x := range t.explore(st, e, func(x *Exec) {
		r := t.runBody(x, fd)
		x.result = x.branch(x.err(r[0]).nil_)
	}) {
		if x.result.(bool) {
			x.obligation("success: an object", "strict", x.prove(x.jtypeIs(v, jObject)), "a value that is not an object is accepted", token.NoPos)
			for _, nm := range names {
				s := b.Str(nm)
				bad := t.decide(x, func(y *Exec) {
					w := y.fresh("w", SInt)
					y.assume(b.And(b.Le(b.Int(0), w), b.Lt(w, N)))
					y.assume(b.Eq(b.App("jkey", SStr, v, w), s))
					y.assume(y.cntStep(s, v, w))
					y.assumeCheck(b.Le(b.Int(2), b.App("cnt", SInt, s, v, b.Add(w, b.Int(1)))))
					y.instantiate(w)
					y.fail("dup", "an object with two members %q is accepted", nm)
				})
				t.verd(x, "success: no duplicate "+nm, bad, nm)
			}
			if strict {
				bad := t.decide(x, func(y *Exec) {
					w := y.fresh("w", SInt)
					y.assume(b.And(b.Le(b.Int(0), w), b.Lt(w, N)))
					for _, nm := range known {
						y.assume(b.Not(b.Eq(b.App("jkey", SStr, v, w), b.Str(nm))))
					}
					y.instantiate(w)
					if !y.t.feasible(y.st.pc) {
						y.kill()
					}
					y.fail("strict", "an object with an undeclared member is accepted by a strict type")
				})
				t.verd(x, "success: no undeclared member", bad, "")
			}
			continue
		}
		// refused: there must be a reason
		just := x.prove(b.Not(x.jtypeIs(v, jObject)))
		for i := len(x.st.wits) - 1; i >= 0 && !just; i-- {
			k := x.st.wits[i]
			key := b.App("jkey", SStr, v, k)
			is := x.constOf(key)
			for _, nm := range known {
				s := b.Str(nm)
				if is != nil && is != s {
					continue
				}
				if x.prove(b.Eq(key, s)) && x.prove(b.Le(b.Int(2), b.App("cnt", SInt, s, v, b.Add(k, b.Int(1))))) {
					just = true
				}
			}
			if strict && !just {
				var cs []*Term
				for _, nm := range known {
					cs = append(cs, b.Not(b.Eq(key, b.Str(nm))))
				}
				just = x.prove(b.And(cs...))
			}
		}
		x.obligation("refusal", "strict", just, "an object that has neither an undeclared (strict) nor a repeated member is refused", token.NoPos)
	}
}

func (t *Task) verd(x *Exec, name string, v *verdict, fld string) {
	if v != nil {
		t.failObl(x, name, v, token.NoPos, fld)
	} else {
		t.okObl(x, name, token.NoPos)
	}
}

func (t *Task) runBody(x *Exec, fd *ast.FuncDecl) []Val {
	x.block(fd.Body.List)
	f := x.fr()
	r := x.finish(f)
	x.frames = append(x.frames, f)
	return r
}

// bindRecv binds the receiver; it returns the object that holds the value.
func (t *Task) bindRecv(e *Exec, fd *ast.FuncDecl, n *types.Named, s0 Val, isNil *Term) int {
	o := t.recvObj(fd)
	obj := e.alloc(s0)
	if o == nil {
		return obj
	}
	if _, isP := o.Type().Underlying().(*types.Pointer); isP {
		e.st.env[o] = e.alloc(&PtrV{nil_: isNil, obj: obj, elem: n})
		return obj
	}
	e.st.env[o] = obj
	return obj
}

// ---------------------------------------------------------------- UnmarshalJSON, MarshalJSON

func (t *Task) verifyUnmarshal(n *types.Named) {
	fd := t.pkg.methods[n.Obj().Name()+".UnmarshalJSON"]
	t.method, t.typ = "UnmarshalJSON", n
	b := t.b
	st := newState()
	e := t.begin(fd, st)
	s0 := t.symbol("s0", n)
	obj := t.bindRecv(e, fd, n, s0, b.F)
	data := b.App("data", SStr)
	e.bindParams(t.pkg.info, fd.Type, []Val{&BytesV{nil_: b.App("data:nil", SBool), t: data, borrowed: true}})
	tk := typeKey(n)
	for _, x := range t.explore(st, e, func(x *Exec) {
		r := t.runBody(x, fd)
		x.result = x.branch(x.err(r[0]).nil_)
	}) {
		pok := b.App("parse_ok", SBool, data)
		pv := b.App("parsed", SJV, data)
		ok := b.App("ok:"+tk, SBool, pv)
		if x.result.(bool) {
			x.obligation("success", "err", x.prove(b.And(pok, ok)), "success although the text could not be parsed or decoded", token.NoPos)
			want := t.symbol("fill:"+tk, n, x.reifyT(s0, n), pv)
			v := t.decide(x, func(y *Exec) {
				if y.reifyT(y.st.heap[obj], n) != y.reifyT(want, n) {
					y.fail("value", "the value is not the one decoded from the text")
				}
			})
			t.verd(x, "value", v, "")
		} else {
			x.obligation("failure", "err", x.prove(b.Not(b.And(pok, ok))), "an acceptable document is refused", token.NoPos)
		}
		// the pooled parser
		puts, gets, parses, use := 0, 0, 0, -1
		bad := ""
		for i, ev := range x.st.events {
			switch ev {
			case "get":
				gets++
			case "parse":
				parses++
				if puts > 0 {
					bad = "the parser is used after it was given back"
				}
			case "use":
				use = i
				if puts > 0 {
					bad = "the parser is given back before the decoding has finished"
				}
			case "put":
				puts++
				if puts > gets {
					bad = "a parser is given back twice"
				}
			}
		}
		_ = use
		if parses > 0 && gets > 0 && puts == 0 && x.result.(bool) {
			bad = "the parser is never given back"
		}
		x.obligation("parser protocol", "pool", bad == "", bad, token.NoPos)
	}
}

func (t *Task) verifyMarshalJSON(n *types.Named) {
	fd := t.pkg.methods[n.Obj().Name()+".MarshalJSON"]
	t.method, t.typ = "MarshalJSON", n
	b := t.b
	st := newState()
	e := t.begin(fd, st)
	s0 := t.symbol("s0", n)
	snil := b.App("snil", SBool)
	t.bindRecv(e, fd, n, s0, snil)
	tk := typeKey(n)
	r0 := e.reifyT(s0, n)
	for _, x := range t.explore(st, e, func(x *Exec) {
		r := t.runBody(x, fd)
		x.result = r
		x.branch(x.err(r[1]).nil_)
		x.branch(snil)
	}) {
		r := x.result.([]Val)
		isNil := x.st.pcset[snil.id]
		if x.branch(x.err(r[1]).nil_) {
			by, ok := x.force(r[0]).(*BytesV)
			out := "?"
			good := false
			if ok {
				if w, isB := x.st.ghost["built:"+by.t.name].(*WriterV); isB {
					c := &cur{segs: w.segs}
					out = c.show()
					if isNil {
						good = c.lit("null") && c.done()
					} else if s := c.seg(); s != nil && s.kind == "enc" && types.Identical(s.T, n) && x.reifyT(s.v, n) == r0 {
						c.pop()
						good = c.done()
					}
				} else if isNil && by.t == b.Str("null") {
					good = true
				}
			}
			kind := "encode"
			if isNil {
				kind = "nil"
			}
			x.obligation(fmt.Sprintf("output (nil receiver: %v)", isNil), kind, good, "the result is "+out, token.NoPos)
			if !isNil {
				x.obligation("success", "err", x.prove(b.App("encok:"+tk, SBool, r0)), "the failure of the encoder is lost", token.NoPos)
			}
		} else {
			x.obligation("failure", "err", !isNil && x.prove(b.Not(b.App("encok:"+tk, SBool, r0))), "encoding fails although nothing failed", token.NoPos)
		}
	}
}

// ---------------------------------------------------------------- IsZero

func (t *Task) verifyIsZero(n *types.Named) {
	fd := t.pkg.methods[n.Obj().Name()+".IsZero"]
	t.method, t.typ = "IsZero", n
	st := newState()
	e := t.begin(fd, st)
	s0 := t.symbol("s0", n)
	t.bindRecv(e, fd, n, s0, t.b.F)
	b := t.b
	type part struct {
		name string
		c    func(x *Exec) *Term // empty in the narrow sense
		w    func(x *Exec) *Term // empty in the wide sense
	}
	var parts []part
	dev := map[string]string{}
	var arr *types.Array
	if u, ok := n.Underlying().(*types.Struct); ok && !timeLike(n) && t.transitRHS(n) == nil {
		for i := range membersOf(u, t.pkg.types) {
			m := membersOf(u, t.pkg.types)[i]
			parts = append(parts, part{m.label(), func(x *Exec) *Term { return x.empty(m.T, x.loadAt(s0, steps(m.path))) }, func(x *Exec) *Term { return x.noElems(m.T, x.loadAt(s0, steps(m.path))) }})
			if _, isA := under(m.T).(*types.Array); isA && !uuidLike(m.T) {
				dev[m.label()] = "array-never-empty"
			}
		}
	} else {
		T := types.Type(n.Underlying())
		if r := t.transitRHS(n); r != nil {
			T = r
		}
		f := func(x *Exec) *Term {
			switch x.force(s0).(type) {
			case *SliceV:
				if hasMethod(T, "IsZero") {
					break
				}
				return b.Eq(x.slice(s0).len, b.Int(0))
			case *MapV:
				if hasMethod(T, "IsZero") {
					break
				}
				if m := x.force(s0).(*MapV); m.org != nil {
					return b.Eq(b.App("mlen", SInt, m.org), b.Int(0))
				}
			}
			return x.empty(T, s0)
		}
		parts = append(parts, part{"", f, f})
		arr, _ = T.Underlying().(*types.Array)
	}
	// every and some: the condition c holds for all elements, or for one of them
	elems := func(x *Exec, neg bool) []*Term {
		q, ok := x.force(s0).(*Seq)
		if !ok {
			return nil
		}
		var cs []*Term
		for i := int64(0); i < arr.Len() && i < 64; i++ {
			c := x.empty(arr.Elem(), x.force1(x.seqAt(q, b.Int(i))))
			if neg {
				c = b.Not(c)
			}
			cs = append(cs, c)
		}
		return cs
	}
	inverted := func() bool {
		return arr != nil && hasMethod(arr.Elem(), "IsZero") && t.allowed("array-emptiness-inverted")
	}
	for _, x := range t.explore(st, e, func(x *Exec) {
		r := t.runBody(x, fd)
		x.result = x.branch(x.term(r[0]))
		if arr != nil && arr.Len() <= 128 {
			for i := int64(0); i < arr.Len(); i++ {
				x.instantiate(b.Int(i))
			}
		}
	}) {
		if x.result.(bool) {
			for _, p := range parts {
				if ok := x.prove(p.w(x)); !ok && inverted() && x.prove(b.And(elems(x, true)...)) {
					t.devUsed["array-emptiness-inverted@"] = true
					continue
				}
				x.obligation("true implies empty "+p.name, "empty", x.prove(p.w(x)), "the value counts as empty although "+p.name+" need not be empty", token.NoPos)
			}
			continue
		}
		var cs []*Term
		deviates := ""
		for _, p := range parts {
			t.mem = p.name
			if d := dev[p.name]; d != "" && t.allowed(d) {
				deviates = d + "@" + p.name
			}
			t.mem = ""
			cs = append(cs, p.c(x))
		}
		ok := x.prove(b.Not(b.And(cs...)))
		if !ok && deviates != "" {
			t.devUsed[deviates] = true // id@member
			ok = true
		}
		if !ok && inverted() && x.prove(b.Not(b.And(elems(x, true)...))) {
			t.devUsed["array-emptiness-inverted@"] = true
			ok = true
		}
		t.curFld = ""
		if !ok {
			for _, p := range parts {
				for _, q := range x.st.pc {
					if mentions(p.c(x), q) || q.op == "not" && mentions(p.c(x), q.args[0]) {
						t.curFld = p.name
					}
				}
			}
		}
		x.obligation("false implies not empty", "empty", ok, "an empty value does not count as empty", token.NoPos)
		t.curFld = ""
	}
}

// ---------------------------------------------------------------- Reset

func (t *Task) verifyReset(n *types.Named) {
	fd := t.pkg.methods[n.Obj().Name()+".Reset"]
	t.method, t.typ = "Reset", n
	st := newState()
	e := t.begin(fd, st)
	s0 := t.symbol("s0", n)
	obj := t.bindRecv(e, fd, n, s0, t.b.F)
	if u, ok := n.Underlying().(*types.Struct); ok && !timeLike(n) && t.transitRHS(n) == nil {
		ms := membersOf(u, t.pkg.types)
		// statement by statement; members that are done are forgotten
		cur := []*live{{st: st, mark: map[int]bool{}}}
		d := &fillDriver{t: t, base: e, body: fd.Body.List, sobj: obj, ms: ms}
		for _, m := range ms {
			d.olds = append(d.olds, e.pristine(e.loadAt(s0, steps(m.path))))
		}
		finish := func(x *Exec, l *live) {
			for i := range ms {
				m := &ms[i]
				if l.mark[i] && !d.changed(l.st, x, i) {
					continue
				}
				t.verd(x, "member "+m.label(), d.resetMember(x, i), m.label())
			}
		}
		for k, s := range fd.Body.List {
			var next []*live
			seen := map[string]bool{}
			for _, l := range cur {
				for _, o := range t.step(e, l.st, s, false) {
					if o.end {
						finish(o.e, l)
						continue
					}
					mark := map[int]bool{}
					for i := range l.mark {
						mark[i] = true
					}
					for i := range ms {
						if d.later(i, d.body[k+1:]) {
							continue
						}
						if mark[i] && !d.changed(l.st, o.e, i) {
							continue
						}
						if !mark[i] && !d.changed(l.st, o.e, i) && len(mark) == 0 && k < len(d.body)-1 && !d.mentionsField(i, s) {
							continue
						}
						if !d.mentionsField(i, s) && !d.changed(l.st, o.e, i) {
							continue
						}
						t.verd(o.e, "member "+ms[i].label(), d.resetMember(o.e, i), ms[i].label())
						mark[i] = true
					}
					nl := &live{st: o.e.st, mark: mark}
					if len(mark) > len(l.mark) {
						nl = d.collapse(l, o.e, mark, k, true)
					}
					if nl.st != o.e.st {
						key := fmt.Sprintf("%p%s", l, nl.key())
						if seen[key] {
							continue
						}
						seen[key] = true
					}
					next = append(next, nl)
				}
			}
			if len(next) > 300 {
				panic(unsupported("too many states"))
			}
			cur = next
		}
		for _, l := range cur {
			for _, o := range t.step(e, l.st, nil, true) {
				finish(o.e, l)
			}
		}
		return
	}
	T := types.Type(n.Underlying())
	if r := t.transitRHS(n); r != nil {
		T = r
	}
	old := e.pristine(s0)
	for _, x := range t.explore(st, e, func(x *Exec) { t.runBody(x, fd) }) {
		v := t.decideDev(x, func(y *Exec) {
			got := y.st.heap[obj]
			if o, ok := got.(*Opq); ok && y.touched(o.t) {
				got = y.force(o)
			}
			y.resetOK(T, old, got, "the value", true)
		})
		t.verd(x, "value", v, "")
	}
}

func (d *fillDriver) mentionsField(i int, s ast.Stmt) bool { return d.later(i, []ast.Stmt{s}) }

func (d *fillDriver) resetMember(e *Exec, i int) *verdict {
	m := &d.ms[i]
	return d.t.decideMem(m.label(), e, func(x *Exec) {
		got := x.loadAt(x.st.heap[d.sobj], steps(m.path))
		if o, ok := got.(*Opq); ok && x.touched(o.t) {
			got = x.force(o)
		}
		x.resetOK(m.T, d.olds[i], got, m.what(), false)
	})
}

// resetOK: nothing of old is left in got.
func (x *Exec) resetOK(T types.Type, old, got Val, what string, top bool) {
	b := x.b()
	got = x.force1(got)
	if g := x.reifyT(got, T); isZeroTerm(g) {
		return
	}
	if hasMethod(T, "Reset") {
		if mv, ok := got.(*MapV); ok {
			mc := x.mapC(mv)
			if len(mc.ops) > 0 && mc.ops[len(mc.ops)-1].kind == "reset" {
				return
			}
		}
		g := x.reifyT(got, T)
		if g.op == "app" && strings.HasSuffix(g.name, "reset:"+typeKey(T)) {
			return
		}
		if n := namedOf(T); n != nil && n.Obj().Pkg() != nil {
			if _, ok := under(T).(*types.Struct); ok {
				x.fail("reset", "%s is %s after Reset", what, showVal(got))
			}
		}
	}
	if timeLike(T) || uuidLike(T) {
		x.fail("reset", "%s is %s after Reset", what, showVal(got))
	}
	switch u := under(T).(type) {
	case *types.Basic:
		t := x.term(got)
		z := x.term(x.zeroVal(T))
		if t.sort == SF64 || t.sort == SF32 {
			if !x.prove(b.mk("fp.eq", "", SBool, []*Term{t, z})) {
				x.fail("reset", "%s is %s after Reset", what, t)
			}
			return
		}
		if !x.prove(b.Eq(t, z)) {
			x.fail("reset", "%s is %s after Reset", what, t)
		}
	case *types.Pointer:
		p, ok := x.force(got).(*PtrV)
		if !ok {
			panic(unsupported("pointer %s", showVal(got)))
		}
		if x.branch(p.nil_) {
			return
		}
		// a pointee kept for reuse must itself be reset
		if _, isP := under(u.Elem()).(*types.Struct); isP && hasMethod(u.Elem(), "Reset") {
			g := x.reifyT(x.load(x.ptrLoc(p)), u.Elem())
			if g.op == "app" && strings.HasSuffix(g.name, "reset:"+typeKey(u.Elem())) {
				return
			}
		}
		x.fail("reset", "%s is not nil after Reset", what)
	case *types.Slice:
		s := x.slice(got)
		if !x.prove(b.Eq(s.len, b.Int(0))) {
			x.fail("reset", "%s has %s elements after Reset", what, s.len)
		}
		if x.branch(b.Eq(s.cap, b.Int(0))) || x.branch(s.nil_) {
			return
		}
		i, ok := x.index_(s.cap)
		if !ok {
			return
		}
		os, isS := x.force(x.pristine(old)).(*SliceV)
		var oe Val = x.zeroVal(u.Elem())
		if isS {
			if x.t.dev && x.branch(b.Le(os.len, i)) && x.deviate("reset-beyond-len") {
				return
			}
			oe = x.pristine(x.sliceAt(os, i))
		}
		if top && x.deviate("named-list-reset-keeps-elements") {
			return
		}
		g := x.sliceAt(s, i)
		if gp, ok := g.(*Opq); ok && x.touched(gp.t) {
			g = x.force(gp)
		}
		x.resetOK(u.Elem(), oe, g, what+"[i]", false)
	case *types.Array:
		q, ok := x.force(got).(*Seq)
		if !ok {
			panic(unsupported("array %s", showVal(got)))
		}
		i, ok := x.index_(b.Int(u.Len()))
		if !ok {
			return
		}
		oq, _ := x.force(old).(*Seq)
		var oe Val = x.zeroVal(u.Elem())
		if oq != nil {
			oe = x.pristine(x.force1(x.seqAt(oq, i)))
		}
		x.resetOK(u.Elem(), oe, x.force1(x.seqAt(q, i)), what+"[i]", false)
	case *types.Map:
		m, ok := x.force(got).(*MapV)
		if !ok {
			panic(unsupported("map %s", showVal(got)))
		}
		if x.branch(m.nil_) {
			return
		}
		mc := x.mapC(m)
		if mc.org == nil && len(mc.ops) == 0 {
			return
		}
		if n := len(mc.ops); n > 0 && mc.ops[n-1].kind == "clear" {
			return
		}
		if len(mc.ops) == 1 && mc.ops[0].kind == "fold" {
			f := mc.ops[0].fold
			if x.prove(b.Eq(f.n, b.App("mlen", SInt, mc.org))) {
				all := len(f.cases) > 0
				for _, c := range f.cases {
					if len(c.ops) != 1 || c.ops[0].kind != "del" || x.reify(c.ops[0].k) != x.reify(x.t.proj2(mc.org, f.idx, "mkey", u.Key())) {
						all = false
					}
				}
				if all {
					return
				}
			}
		}
		if x.prove(b.Eq(b.App("mlen", SInt, mc.org), b.Int(0))) {
			return
		}
		if top && x.deviate("named-map-reset-keeps-keys") {
			return
		}
		x.fail("reset", "%s keeps entries after Reset", what)
	case *types.Struct:
		s, ok := x.force(got).(*StructV)
		if !ok {
			panic(unsupported("struct %s", showVal(got)))
		}
		for i := range s.f {
			x.resetOK(u.Field(i).Type(), x.pristine(x.loadAt(old, []Step{{fld: i}})), s.f[i], what+"."+u.Field(i).Name(), false)
		}
	default:
		panic(unsupported("no reset specification for %s", T))
	}
}
