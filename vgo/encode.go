package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---------------------------------------------------------------- emptiness

// empty is the condition under which v counts as empty.
func (x *Exec) empty(T types.Type, v Val) *Term {
	b := x.b()
	if rhs, ok := genCodec(T); ok {
		return x.empty(rhs, v)
	}
	if hasMethod(T, "IsZero") && !timeLike(T) {
		return b.App("empty:"+typeKey(T), SBool, x.reifyT(v, T))
	}
	if timeLike(T) {
		t := x.term(v)
		if t.name == "zero:time" {
			return b.T
		}
		return b.App("tzero", SBool, t)
	}
	if uuidLike(T) {
		return b.Eq(x.term(v), b.App("zero:uuid", SU))
	}
	switch u := under(T).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return b.Not(x.term(v))
		case u.Info()&(types.IsInteger|types.IsString|types.IsFloat) != 0:
			return x.valEq(v, x.zeroVal(T))
		}
	case *types.Pointer, *types.Slice, *types.Map:
		return x.isNil(v)
	case *types.Array:
		q, ok := x.force(v).(*Seq)
		if ok && u.Len() <= 128 {
			var cs []*Term
			for i := int64(0); i < u.Len(); i++ {
				cs = append(cs, x.empty(u.Elem(), x.force1(x.seqAt(q, b.Int(i)))))
			}
			return b.And(cs...)
		}
	case *types.Struct:
		s, ok := x.force(v).(*StructV)
		if ok {
			var cs []*Term
			for i := range s.f {
				cs = append(cs, x.empty(u.Field(i).Type(), s.f[i]))
			}
			return b.And(cs...)
		}
	}
	panic(unsupported("no emptiness specification for %s", T))
}

// ---------------------------------------------------------------- reading the output

// cur reads a sequence of output segments.
type cur struct {
	segs []Seg
	off  int
}

type partialOut struct{}

func (c *cur) norm() {
	for len(c.segs) > 0 && c.segs[0].kind == "const" && c.off >= len(c.segs[0].s) {
		c.segs, c.off = c.segs[1:], 0
	}
}

func (c *cur) done() bool { c.norm(); return len(c.segs) == 0 }

// text is the constant text that comes next.
func (c *cur) text() string {
	c.norm()
	var sb strings.Builder
	for i, s := range c.segs {
		if s.kind != "const" {
			break
		}
		if i == 0 {
			sb.WriteString(s.s[c.off:])
		} else {
			sb.WriteString(s.s)
		}
	}
	return sb.String()
}

func (c *cur) skip(n int) {
	for n > 0 {
		c.norm()
		k := len(c.segs[0].s) - c.off
		if k > n {
			k = n
		}
		c.off += k
		n -= k
	}
}

// lit consumes s if it comes next.
func (c *cur) lit(s string) bool {
	if strings.HasPrefix(c.text(), s) {
		c.skip(len(s))
		return true
	}
	return false
}

func (c *cur) seg() *Seg {
	c.norm()
	if len(c.segs) == 0 || c.segs[0].kind == "const" {
		return nil
	}
	return &c.segs[0]
}

func (c *cur) pop() { c.segs = c.segs[1:]; c.off = 0 }

func (c *cur) show() string {
	if c.done() {
		return "nothing"
	}
	s := append([]Seg(nil), c.segs...)
	if s[0].kind == "const" {
		s[0].s = s[0].s[c.off:]
	}
	if len(s) > 3 {
		s = s[:3]
	}
	return fmt.Sprint(s)
}

func (x *Exec) needMore(c *cur) {
	if c.done() {
		panic(partialOut{})
	}
}

// jsonScalar splits one JSON string or number literal off the constant text.
func jsonScalar(s string) (string, bool) {
	if s == "" {
		return "", false
	}
	if s[0] == '"' {
		for i := 1; i < len(s); i++ {
			if s[i] == '\\' {
				i++
				continue
			}
			if s[i] == '"' {
				return s[:i+1], true
			}
		}
		return "", false
	}
	i := 0
	for i < len(s) && strings.IndexByte("+-.0123456789eE", s[i]) >= 0 {
		i++
	}
	return s[:i], i > 0
}

// kind classes what stands where a value is expected: the beginning of another value leaves the
// document well formed ("encode"); anything else does not ("out").
func (c *cur) kind() string {
	if s := c.seg(); s != nil {
		if s.kind == "raw" || s.kind == "loop" {
			return "out"
		}
		return "encode"
	}
	if t := c.text(); t == "" || strings.IndexByte(`{["tfn-0123456789`, t[0]) < 0 {
		return "out"
	}
	return "encode"
}

type ectx struct {
	layout string
	what   string
	elem   bool
	top    bool
}

// codecEnc: values of T are written by a method of their own.
func codecEnc(T types.Type) bool { return hasMethod(T, "MarshalTo") }

// matchEnc checks that the output that comes next is the JSON form of v.
func (x *Exec) matchEnc(T types.Type, v Val, c *cur, k ectx) {
	b := x.b()
	x.needMore(c)
	bad := func() { x.fail(c.kind(), "%s: the output %s is not the JSON form of its value", k.what, c.show()) }
	if rhs, ok := genCodec(T); ok && codecEnc(T) {
		if s := c.seg(); s == nil || s.kind != "enc" || !types.Identical(s.T, T) {
			x.matchEnc(rhs, v, c, k)
			return
		}
	}
	if codecEnc(T) {
		s := c.seg()
		if s == nil || s.kind != "enc" || !types.Identical(s.T, T) {
			bad()
		}
		if x.reifyT(s.v, T) != x.reifyT(v, T) {
			x.equal(T, s.v, v, "encode", k.what+" (written value)")
		}
		c.pop()
		return
	}
	if timeLike(T) {
		lay := k.layout
		if lay == "" {
			lay = time.RFC3339Nano
		}
		t := x.term(v)
		if s := c.seg(); s != nil && s.kind == "time" {
			lt := x.term(s.lay)
			if s.t != t && !x.prove(b.Eq(s.t, t)) {
				x.fail("encode", "%s: another time is written", k.what)
			}
			if lt != b.Str(lay) {
				x.fail("layout", "%s is written with layout %s, declared is %q", k.what, lt, lay)
			}
			if needsEscape(lay) && !x.deviate("layout-unescaped") {
				x.fail("out", "%s: the text of the layout %q is written without escaping", k.what, lay)
			}
			c.pop()
			return
		}
		if x.prove(x.empty(T, v)) && x.unescapedZero(c, lay) {
			return
		}
		if lit, ok := jsonScalar(c.text()); ok && lit[0] == '"' {
			if !x.prove(x.empty(T, v)) {
				bad()
			}
			var zt string
			if json.Unmarshal([]byte(lit), &zt) != nil || zt != (time.Time{}).Format(lay) {
				x.fail("layout", "%s: the zero time is written as %s", k.what, lit)
			}
			c.skip(len(lit))
			return
		}
		if c.lit(`"`) {
			x.needMore(c)
			if s := c.seg(); s != nil && s.kind == "raw" && s.t == b.App("tfmt", SStr, t, b.Str(lay)) {
				c.pop()
				x.needMore(c)
				if c.lit(`"`) {
					return
				}
			}
		}
		if s := c.seg(); s != nil && s.kind == "quote" && s.t == b.App("tfmt", SStr, t, b.Str(lay)) {
			c.pop()
			return
		}
		bad()
	}
	if uuidLike(T) {
		t := b.App("uuidtext", SStr, x.term(v))
		if s := c.seg(); s != nil && s.kind == "quote" && s.t == t {
			c.pop()
			return
		}
		if c.lit(`"`) {
			x.needMore(c)
			if s := c.seg(); s != nil && s.kind == "raw" && (s.t == t || x.prove(b.Eq(s.t, t))) {
				c.pop()
				x.needMore(c)
				if c.lit(`"`) {
					return
				}
			}
		}
		bad()
	}
	if isArr, _, ok := isByteSeq(T); ok {
		if isArr && c.lit("null") {
			// the empty value of a byte array has no text
			if !x.prove(x.empty(T, v)) {
				x.fail("encode", "%s: null is written for a value that may not be empty", k.what)
			}
			return
		}
		if !isArr && x.branch(x.isNil(v)) {
			if c.lit("null") {
				return
			}
			if s := c.seg(); s != nil && s.kind == "quote64" && x.deviate("nil-bytes-as-empty-text") {
				c.pop()
				return
			}
			bad()
		}
		s := c.seg()
		if s == nil || s.kind != "quote64" {
			bad()
		}
		src := x.force1(s.v).(*B64S).src
		if isArr {
			sl, ok := x.force(src).(*SliceV)
			if !ok {
				bad()
			}
			q, ok := x.force(v).(*Seq)
			n := under(T).(*types.Array).Len()
			if !ok || !x.prove(b.Eq(sl.len, b.Int(n))) {
				bad()
			}
			if i, ok := x.index_(b.Int(n)); ok {
				x.equal(types.Typ[types.Byte], x.sliceAt(sl, i), x.force1(x.seqAt(q, i)), "encode", k.what+"[i]")
			}
		} else {
			x.equal(T, src, v, "encode", k.what+" (written bytes)")
		}
		c.pop()
		return
	}
	switch u := under(T).(type) {
	case *types.Basic:
		x.matchScalar(T, u, v, c, k)
	case *types.Pointer:
		p, ok := x.force(v).(*PtrV)
		if !ok {
			panic(unsupported("pointer %s", showVal(v)))
		}
		if x.branch(p.nil_) {
			if !c.lit("null") {
				elem := u.Elem()
				if p, ok := under(elem).(*types.Pointer); ok {
					elem = p.Elem()
				}
				if timeLike(elem) && x.unescapedZero(c, k.layout) {
					return
				}
				if timeLike(elem) && x.t.dev && x.t.allowed("nil-time-as-zero") {
					if lit, ok := jsonScalar(c.text()); ok && lit[0] == '"' && x.deviate("nil-time-as-zero") {
						c.skip(len(lit))
						return
					}
				}
				x.fail(c.kind(), "%s: nil is written as %s", k.what, c.show())
			}
			return
		}
		d := k
		d.what, d.top = "*"+k.what, false
		x.matchEnc(u.Elem(), x.load(x.ptrLoc(p)), c, d)
	case *types.Slice, *types.Array:
		var n *Term
		var at func(y *Exec, i *Term) Val
		E := elemOf(u)
		if a, ok := u.(*types.Array); ok {
			n = b.Int(a.Len())
			at = func(y *Exec, i *Term) Val { return y.force1(y.seqAt(y.force(v).(*Seq), i)) }
		} else {
			s := x.slice(v)
			if x.branch(s.nil_) {
				if c.lit("null") {
					return
				}
				if k.elem && c.lit("[") {
					for c.seg() != nil && c.seg().kind == "loop" && x.prove(b.Eq(c.seg().loop.n, b.Int(0))) {
						c.pop()
					}
					x.needMore(c)
					if c.lit("]") && x.deviate("nil-list-element-as-empty") {
						return
					}
				}
				bad()
			}
			n = s.len
			at = func(y *Exec, i *Term) Val { return y.sliceAt(s, i) }
		}
		x.matchSeq("[", "]", n, c, k, func(y *Exec, i *Term, d *cur) {
			y.matchEnc(E, at(y, i), d, ectx{what: k.what + "[i]", elem: true})
		})
	case *types.Map:
		m, ok := x.force(v).(*MapV)
		if !ok {
			panic(unsupported("map %s", showVal(v)))
		}
		if x.branch(m.nil_) {
			if c.lit("null") {
				return
			}
			bad()
		}
		mc := x.mapC(m)
		if mc.org == nil || len(mc.ops) > 0 {
			panic(unsupported("encoding of a map that was changed"))
		}
		n := b.App("mlen", SInt, mc.org)
		x.matchSeq("{", "}", n, c, k, func(y *Exec, i *Term, d *cur) {
			key := y.term(y.t.proj2(mc.org, i, "mkey", u.Key()))
			s := d.seg()
			if s == nil || s.kind != "quote" || s.t != key {
				y.fail("map", "%s: an entry does not begin with its quoted key", k.what)
			}
			d.pop()
			if !d.lit(":") {
				y.fail("out", "%s: no colon after the key", k.what)
			}
			y.matchEnc(u.Elem(), y.force1(y.t.proj2(mc.org, i, "mval", u.Elem())), d, ectx{what: k.what + "[key]", elem: true})
		})
	default:
		panic(unsupported("no encoding specification for %s", T))
	}
}

func (x *Exec) matchScalar(T types.Type, u *types.Basic, v Val, c *cur, k ectx) {
	b := x.b()
	bad := func() { x.fail(c.kind(), "%s: the output %s is not the JSON form of its value", k.what, c.show()) }
	t := x.term(v)
	switch {
	case u.Info()&types.IsBoolean != 0:
		if x.branch(t) {
			if !c.lit("true") {
				bad()
			}
		} else if !c.lit("false") {
			bad()
		}
	case u.Info()&types.IsString != 0:
		if s := c.seg(); s != nil {
			if s.kind != "quote" || s.t != t && !x.prove(b.Eq(s.t, t)) {
				bad()
			}
			c.pop()
			return
		}
		lit, ok := jsonScalar(c.text())
		var str string
		if !ok || lit[0] != '"' || json.Unmarshal([]byte(lit), &str) != nil || !x.prove(b.Eq(t, b.Str(str))) {
			bad()
		}
		c.skip(len(lit))
	case u.Info()&types.IsInteger != 0:
		if s := c.seg(); s != nil {
			if s.kind != "int" || s.t != t && !x.prove(b.Eq(s.t, t)) {
				bad()
			}
			c.pop()
			return
		}
		lit, ok := jsonScalar(c.text())
		n, isN := new(big.Int).SetString(lit, 10)
		if !ok || !isN || !json.Valid([]byte(lit)) || !x.prove(b.Eq(t, b.Big(n))) {
			bad()
		}
		c.skip(len(lit))
	case u.Info()&types.IsFloat != 0:
		if s := c.seg(); s != nil {
			if s.kind != "float" {
				bad()
			}
			want := t
			switch {
			case s.t == t:
			case t.sort == SF32 && s.t.sort == SF64:
				want = b.mk("tofp64", "", SF64, []*Term{t})
			case s.t.sort == SF32 && t.sort == SF64:
				bad()
			}
			if s.t != want && !x.prove(b.Eq(s.t, want)) {
				bad()
			}
			if s.s == "32" && t.sort == SF64 {
				bad()
			}
			// NaN and the infinities have no JSON form
			if !x.deviate("non-finite-float") {
				fin := b.And(b.mk("fp.leq", "", SBool, []*Term{t, x.floatMax(t.sort, false)}), b.mk("fp.leq", "", SBool, []*Term{x.floatMax(t.sort, true), t}))
				if !x.prove(fin) {
					x.fail("out", "%s: a value that is not a number is written", k.what)
				}
			}
			c.pop()
			return
		}
		lit, ok := jsonScalar(c.text())
		f, err := strconv.ParseFloat(lit, 64)
		if !ok || err != nil || !json.Valid([]byte(lit)) || !x.prove(b.mk("fp.eq", "", SBool, []*Term{t, x.floatConst(f, t.sort)})) {
			bad()
		}
		c.skip(len(lit))
	default:
		panic(unsupported("no encoding specification for %s", T))
	}
}

func (x *Exec) floatMax(s Sort, neg bool) *Term {
	f := 1.79769313486231570814527423731704356798070e+308
	if s == SF32 {
		f = 3.40282346638528859811704183484516925440e+38
	}
	if neg {
		f = -f
	}
	return x.floatConst(f, s)
}

// matchSeq checks an opening bracket, n elements separated by single commas, and the closing bracket.
func (x *Exec) matchSeq(open, cl string, n *Term, c *cur, k ectx, elem func(y *Exec, i *Term, d *cur)) {
	b := x.b()
	if !c.lit(open) {
		x.fail(c.kind(), "%s: expected %s, found %s", k.what, open, c.show())
	}
	x.needMore(c)
	s := c.seg()
	if s == nil || s.kind != "loop" {
		// written without a loop: only for no elements
		if !x.prove(b.Eq(n, b.Int(0))) {
			x.fail("list", "%s: elements are missing from the output", k.what)
		}
		if !c.lit(cl) {
			x.fail("out", "%s: expected %s, found %s", k.what, cl, c.show())
		}
		return
	}
	l := s.loop
	if l.n != n && !x.prove(b.Eq(l.n, n)) {
		x.fail("list", "%s: %s elements are written, the value has %s", k.what, l.n, n)
	}
	c.pop()
	x.needMore(c)
	if !c.lit(cl) {
		x.fail("out", "%s: expected %s, found %s", k.what, cl, c.show())
	}
	w, ok := x.index_(n)
	if !ok {
		return
	}
	for i, cs := range l.cases {
		cond := b.Subst(cs.cond, l.idx, w)
		if i < len(l.cases)-1 {
			if !x.branch(cond) {
				continue
			}
		} else {
			x.assumeCheck(cond)
		}
		segs := x.t.substSegs(cs.segs, l.idx, w)
		d := &cur{segs: segs}
		first := b.Eq(w, b.Int(0))
		last := b.Eq(b.Add(w, b.Int(1)), n)
		if d.lit(",") {
			if !x.prove(b.Not(first)) {
				x.fail("out", "%s: a comma precedes the first element", k.what)
			}
			x.elemOut(d, w, k, elem)
			if !d.done() {
				x.fail("out", "%s: unexpected output %s after an element", k.what, d.show())
			}
			return
		}
		x.elemOut(d, w, k, elem)
		if d.lit(",") {
			if !d.done() || !x.prove(b.Not(last)) {
				x.fail("out", "%s: a comma follows the last element", k.what)
			}
			return
		}
		if !d.done() {
			x.fail("out", "%s: unexpected output %s after an element", k.what, d.show())
		}
		// no comma: the first element when commas precede, the last when they follow
		if x.prove(first) && x.commaStyle(l, w, n, true) || x.prove(last) && x.commaStyle(l, w, n, false) {
			return
		}
		x.fail("out", "%s: no comma between elements", k.what)
	}
}

// commaStyle: every other iteration writes its comma before (after) the element.
func (x *Exec) commaStyle(l *SegLoop, w, n *Term, before bool) bool {
	b := x.b()
	for _, cs := range l.cases {
		d := &cur{segs: cs.segs}
		lead := strings.HasPrefix(d.text(), ",")
		trail := false
		if len(cs.segs) > 0 {
			z := cs.segs[len(cs.segs)-1]
			trail = z.kind == "const" && strings.HasSuffix(z.s, ",")
		}
		if before && lead || !before && trail {
			continue
		}
		// this case must be excluded for the other iterations
		i := x.fresh("i", SInt)
		other := b.Not(b.Eq(i, b.Int(0)))
		if !before {
			other = b.Not(b.Eq(b.Add(i, b.Int(1)), n))
		}
		y := &Exec{t: x.t, st: x.st.clone(), root: x.root, frames: x.frames, loopIdx: x.loopIdx}
		y.st.assume(b.And(b.Le(b.Int(0), i), b.Lt(i, n), other))
		if !y.prove(b.Not(b.Subst(cs.cond, l.idx, i))) {
			return false
		}
	}
	return true
}

func (x *Exec) elemOut(d *cur, w *Term, k ectx, elem func(y *Exec, i *Term, d *cur)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(partialOut); ok {
				x.fail("out", "%s: an element is not written completely", k.what)
			}
			panic(r)
		}
	}()
	if d.done() {
		x.fail("list", "%s: an element is not written", k.what)
	}
	elem(x, w, d)
}

// ---------------------------------------------------------------- MarshalTo of a struct type

// epos is where in the object the output stands.
type epos struct {
	i      int // next member
	g      bool
	opened bool
	closed bool
}

type elive struct {
	st  *State
	pos epos // position of the output written before segs
}

type encDriver struct {
	leaf   bool // the value has no members or elements
	t      *Task
	base   *Exec
	body   []ast.Stmt
	ms     []member
	sobj   int
	wobj   int
	s0     Val
	snil   *Term
	failed bool // the run that starts with a recorded failure
}

func (t *Task) verifyMarshalTo(n *types.Named) {
	fd := t.pkg.methods[n.Obj().Name()+".MarshalTo"]
	if fd == nil || fd.Body == nil {
		panic(unsupported("no MarshalTo"))
	}
	t.method, t.typ = "MarshalTo", n
	st := newState()
	e := t.begin(fd, st)
	d := &encDriver{t: t, base: e, body: fd.Body.List}
	d.s0 = t.symbol("s0", n)
	d.sobj = e.alloc(d.s0)
	d.wobj = e.alloc(&WriterV{err: &ErrV{nil_: t.b.App("werr:nil", SBool), org: t.b.App("werr", SU)}})
	d.snil = t.b.App("snil", SBool)
	if o := t.recvObj(fd); o != nil {
		if _, isP := o.Type().Underlying().(*types.Pointer); isP {
			st.env[o] = e.alloc(&PtrV{nil_: d.snil, obj: d.sobj, elem: n})
		} else {
			st.env[o] = e.alloc(d.s0)
			d.sobj = st.env[o]
			st.assume(t.b.Not(d.snil))
		}
	}
	e.bindParams(t.pkg.info, fd.Type, []Val{&PtrV{nil_: t.b.F, obj: d.wobj}})
	if u, ok := n.Underlying().(*types.Struct); ok && !timeLike(n) && t.transitRHS(n) == nil {
		d.ms = membersOf(u, t.pkg.types)
		var ms []member
		for _, m := range d.ms {
			if !m.tag.skip {
				ms = append(ms, m)
			}
		}
		d.ms = ms
		// once with a sound buffer: what is written; once with a failure recorded before: it must be reported
		werr := t.b.App("werr:nil", SBool)
		st0 := st.clone()
		st.assume(werr)
		d.runStruct()
		st0.assume(t.b.Not(werr))
		d.base.st, d.failed = st0, true
		d.runStruct()
		return
	}
	d.runWhole(n)
}

// scan matches the output segs against the members from pos on. It returns the position reached.
func (d *encDriver) scan(e *Exec, pos epos, segs []Seg) (end epos, partial bool, v *verdict) {
	end = pos
	set := false
	v = d.t.decideDev(e, func(x *Exec) {
		p := pos
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(partialOut); ok {
					partial = true
					return
				}
				panic(r)
			}
			if set && p != end {
				x.fail("out", "the output differs between equal paths")
			}
			end, set = p, true
		}()
		d.noFailure(x)
		c := &cur{segs: segs}
		for !c.done() {
			if p.closed {
				x.fail("out", "output after the object: %s", c.show())
			}
			if !p.opened {
				if !c.lit("{") {
					x.fail("out", "the output begins with %s", c.show())
				}
				p.opened = true
				continue
			}
			if c.lit("}") {
				d.skipTo(x, &p, len(d.ms))
				p.closed = true
				continue
			}
			comma := c.lit(",")
			x.needMore(c)
			txt := c.text()
			if j := d.delegate(x, c, p.i); j >= 0 {
				d.skipTo(x, &p, j)
				x.t.mem = d.ms[j].label()
				d.separator(x, comma, p.g, x.t.mem)
				p.g, p.i = true, j+1
				continue
			}
			lit, ok := jsonScalar(txt)
			if txt == "" || txt[0] != '"' {
				x.fail("out", "a member name is expected, the output is %s", c.show())
			}
			if !ok || len(txt) == len(lit) {
				if len(c.segs) > 1 && c.segs[1].kind != "const" || len(c.segs) > 2 {
					x.fail("out", "a member name is expected, the output is %s", c.show())
				}
				panic(partialOut{})
			}
			if txt[len(lit)] != ':' {
				x.fail("out", "no colon after the member name %s", lit)
			}
			var name string
			if err := json.Unmarshal([]byte(lit), &name); err != nil {
				x.fail("out", "the member name %s is not a JSON text", lit)
			}
			c.skip(len(lit) + 1)
			j := -1
			for i := range d.ms {
				if d.ms[i].name == name {
					j = i
					break
				}
			}
			if j < 0 {
				x.fail("encode", "a member %q is written, which is not declared", name)
			}
			if j < p.i {
				x.fail("encode", "member %q is written again or out of order", name)
			}
			d.skipTo(x, &p, j)
			d.separator(x, comma, p.g, name)
			x.needMore(c)
			m := &d.ms[j]
			x.t.mem = m.label()
			if v := d.val(x, m); m.tag.omit && !isArray(m.T) && !x.prove(x.b().Not(x.empty(m.T, v))) {
				x.fail("missing", "%s is written although it may be empty", m.what())
			}
			x.matchEnc(m.T, d.val(x, m), c, ectx{layout: m.tag.layout, what: m.what()})
			p.g = true
			p.i = j + 1
		}
	})
	return
}

func (d *encDriver) separator(x *Exec, comma, written bool, name string) {
	if comma && !written {
		x.fail("out", "a comma precedes the first member %q", name)
	}
	if !comma && written {
		x.fail("out", "no comma before member %q", name)
	}
}

// delegate: the members of an embedded struct follow, as its own encoder writes them. It returns the struct's number.
func (d *encDriver) delegate(x *Exec, c *cur, from int) int {
	for j := from; j < len(d.ms); j++ {
		m := &d.ms[j]
		if !m.delegated {
			continue
		}
		inner := x.b().App("inner:"+typeKey(m.T), SStr, x.reifyT(d.val(x, m), m.T))
		if s := c.seg(); s != nil && s.kind == "raw" && s.t == inner {
			c.pop()
			return j
		}
		x.t.mem = m.label()
		if x.t.dev && x.t.allowed("delegated-without-members") && x.prove(x.b().Eq(x.b().App("strlen", SInt, inner), x.b().Int(0))) && c.lit("null") {
			x.deviate("delegated-without-members")
			return j
		}
	}
	return -1
}

// noFailure: once a failure is recorded what is written no longer matters (that it is returned is another obligation).
func (d *encDriver) noFailure(x *Exec) {
	x.assumeCheck(x.st.heap[d.wobj].(*WriterV).err.nil_)
}

func (d *encDriver) val(x *Exec, m *member) Val {
	v := x.loadAt(d.s0, steps(m.path))
	return v
}

// skipTo: the members before j that were not written are omitted rightly.
func (d *encDriver) skipTo(x *Exec, p *epos, j int) {
	for ; p.i < j; p.i++ {
		m := &d.ms[p.i]
		d.omitted(x, m)
	}
}

func (d *encDriver) omitted(x *Exec, m *member) {
	x.t.mem = m.label()
	if m.delegated {
		if !x.prove(x.empty(m.T, d.val(x, m))) {
			x.fail("missing", "%s is omitted although it may not be empty", m.what())
		}
		if !x.deviate("delegated-omitted") {
			x.fail("missing", "%s is omitted, with members that are to be written always", m.what())
		}
		return
	}
	if !m.tag.omit {
		x.fail("missing", "%s is not written", m.what())
	}
	if v := d.val(x, m); !x.prove(x.noElems(m.T, v)) {
		x.fail("missing", "%s is omitted although it may not be empty", m.what())
	}
}

func (d *encDriver) segs(e *Exec) []Seg { return e.st.heap[d.wobj].(*WriterV).segs }

func (d *encDriver) rep(e *Exec, v *verdict, m *member, s ast.Node) {
	p := token.NoPos
	if s != nil {
		p = s.Pos()
	}
	lb := ""
	if m != nil {
		lb = m.label()
	}
	d.t.failObl(e, "output "+lb+" "+v.kind, v, p, lb)
}

func (d *encDriver) runStruct() {
	t := d.t
	cur := []*elive{{st: d.base.st}}
	for k, s := range d.body {
		var next []*elive
		seen := map[string]bool{}
		for _, l := range cur {
			var outs []outcome
			for _, o := range t.step(d.base, l.st, s, false) {
				if o.end {
					d.returned(l, o)
					continue
				}
				outs = append(outs, o)
			}
			type res struct {
				end     epos
				partial bool
				bad     bool
			}
			rs := make([]res, len(outs))
			reach := l.pos.i
			common := map[int]int{}
			for i, o := range outs {
				for _, p := range o.e.st.pc {
					common[p.id]++
				}
				if d.failed {
					rs[i] = res{end: l.pos}
					continue
				}
				end, part, v := d.scan(o.e, l.pos, d.segs(o.e))
				rs[i] = res{end, part, false}
				if v != nil {
					j := l.pos.i
					if j >= len(d.ms) {
						j = len(d.ms) - 1
					}
					var m *member
					if j >= 0 {
						m = d.guess(v, j)
					}
					d.rep(o.e, v, m, s)
					rs[i] = res{epos{i: l.pos.i, g: true, opened: true}, false, true}
					if m != nil {
						for q := range d.ms {
							if &d.ms[q] == m && q >= l.pos.i {
								rs[i].end.i = q + 1
							}
						}
					}
				}
				if !part && rs[i].end.i > reach {
					reach = rs[i].end.i
				}
			}
			for i, o := range outs {
				r := rs[i]
				full := &elive{st: o.e.st, pos: l.pos}
				if r.partial {
					next = append(next, full)
					continue
				}
				p := r.end
				if p.i < reach {
					if v := t.decideDev(o.e, func(x *Exec) { d.noFailure(x); q := p; d.skipTo(x, &q, reach) }); v != nil {
						// it may still be written by a later statement
						if d.later(p.i, reach, d.body[k+1:]) {
							next = append(next, full)
							continue
						}
						d.rep(o.e, v, &d.ms[p.i], s)
					}
					p.i = reach
				}
				if d.failed {
					p = l.pos
				}
				nl := d.collapse(l, o.e, p, k, common, len(outs), r.bad, s)
				if nl == nil {
					full.pos = l.pos
					next = append(next, full)
					continue
				}
				if p.i > l.pos.i && !r.bad && !d.failed {
					for q := l.pos.i; q < p.i; q++ {
						t.okObl(o.e, "output "+d.ms[q].label(), s.Pos())
					}
				}
				key := fmt.Sprint(nl.pos, stateKey(nl.st))
				if seen[key] {
					continue
				}
				seen[key] = true
				next = append(next, nl)
			}
		}
		if len(next) > 200 {
			panic(unsupported("too many states"))
		}
		cur = next
	}
	for _, l := range cur {
		for _, o := range t.step(d.base, l.st, nil, true) {
			d.returned(l, o)
		}
	}
}

func stateKey(st *State) string {
	ids := make([]int, 0, len(st.pc))
	for _, p := range st.pc {
		ids = append(ids, p.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d,", i)
	}
	return sb.String()
}

// guess is the member a mismatch is about.
func (d *encDriver) guess(v *verdict, j int) *member {
	best := &d.ms[j]
	for i := j; i < len(d.ms); i++ {
		if strings.Contains(v.detail, "member "+strconv.Quote(d.ms[i].name)) {
			return &d.ms[i]
		}
	}
	return best
}

func (d *encDriver) later(i, j int, rest []ast.Stmt) bool {
	found := false
	for _, s := range rest {
		ast.Inspect(s, func(n ast.Node) bool {
			if sel, ok := n.(*ast.SelectorExpr); ok {
				for q := i; q < j; q++ {
					if sel.Sel.Name == d.ms[q].goName {
						found = true
					}
				}
			}
			return !found
		})
	}
	return found
}

func isFailureFact(p *Term) bool {
	return p.op == "not" && p.args[0].op == "app" && (strings.HasPrefix(p.args[0].name, "encok:") || p.args[0].name == "tmok")
}

// lost: the path saw a nested encoder fail.
func failureSeen(st, pre *State) bool {
	for _, p := range st.pc {
		if isFailureFact(p) && (pre == nil || !pre.pcset[p.id]) {
			return true
		}
	}
	var inCond func(c Cond) bool
	inCond = func(c Cond) bool {
		for _, p := range c.ts {
			if isFailureFact(p) {
				return true
			}
		}
		for _, f := range c.fas {
			for _, d := range f.cases {
				if inCond(d) {
					return true
				}
			}
		}
		return false
	}
	n := 0
	if pre != nil {
		n = len(pre.fas)
	}
	if n > len(st.fas) {
		n = len(st.fas)
	}
	for _, f := range st.fas[n:] {
		for _, c := range f.cases {
			if inCond(c) {
				return true
			}
		}
	}
	return false
}

// collapse forgets what the statement did except for the position in the output. nil: the state must be kept whole.
func (d *encDriver) collapse(pre *elive, e *Exec, p epos, k int, common map[int]int, total int, bad bool, s ast.Stmt) *elive {
	t := d.t
	rest := d.body[k+1:]
	if !d.failed && p == pre.pos && len(d.segs(e)) == len(d.segs(&Exec{t: t, st: pre.st})) {
		return nil // nothing written: keep every fact
	}
	st := pre.st.clone()
	for o, id := range e.st.env {
		old, had := pre.st.env[o]
		if id == d.wobj {
			continue
		}
		used := t.usedIn(o, rest)
		if !used {
			continue
		}
		if had && old == id && (!isCommaFlag(o) || d.failed) {
			x, y := pre.st.heap[id], e.st.heap[id]
			if sameVal(x, y) {
				continue
			}
			if ex, ok := y.(*ErrV); ok && ex.nil_.isTrue() {
				st.heap[id] = y
				continue
			}
		}
		if tm, ok := e.st.heap[id].(*Term); ok && tm.sort == SBool {
			if d.failed {
				if !had {
					return nil
				}
				st.heap[old] = e.fresh("flag", SBool)
				continue
			}
			var val bool
			switch {
			case e.prove(tm):
				val = true
			case e.prove(t.b.Not(tm)):
				val = false
			default:
				return nil
			}
			if had && isCommaFlag(o) && val != p.g && !bad {
				// The flag disagrees with what has been written. It may be set by a
				// later statement; if it is not, the next member comes out with a
				// comma too many or too few and is reported there.
				t.mem = d.nameBefore(p.i)
				known := t.allowed("comma-after-null") && d.nullPointerBefore(e, p.i)
				if known {
					t.use("comma-after-null")
				}
				t.mem = ""
				if !known {
					return nil
				}
			}
			if isCommaFlag(o) {
				p.g = val
			}
			if !had {
				st.env[o] = st.nextObj
				st.nextObj++
			}
			st.heap[st.env[o]] = t.b.Bool(val)
			continue
		}
		return nil
	}
	if !d.sameSelf(e) {
		d.rep(e, &verdict{kind: "value", detail: "encoding changes the value"}, nil, s)
	}
	w := e.st.heap[d.wobj].(*WriterV)
	if !sameVal(w.err, pre.st.heap[d.wobj].(*WriterV).err) {
		return nil
	}
	if !d.failed && failureSeen(e.st, pre.st) && !e.prove(t.b.Not(w.err.nil_)) {
		d.rep(e, &verdict{kind: "err", detail: "the failure of a nested encoder is lost"}, d.memberBefore(p.i), s)
	}
	st.heap[d.wobj] = &WriterV{err: w.err}
	for _, q := range e.st.pc {
		if common[q.id] == total {
			st.assume(q)
		}
	}
	return &elive{st: st, pos: p}
}

func isCommaFlag(o types.Object) bool {
	b, ok := o.Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func (d *encDriver) memberBefore(i int) *member {
	if i > 0 && i <= len(d.ms) {
		return &d.ms[i-1]
	}
	return nil
}

func (d *encDriver) nameBefore(i int) string {
	if m := d.memberBefore(i); m != nil {
		return m.name
	}
	return ""
}

// nullPointerBefore: the member just written is a nil pointer.
func (d *encDriver) nullPointerBefore(e *Exec, i int) bool {
	m := d.memberBefore(i)
	if m == nil {
		return false
	}
	if _, ok := under(m.T).(*types.Pointer); !ok {
		return false
	}
	return d.t.decide(e, func(x *Exec) {
		if !x.prove(x.nilChain(m.T, d.val(x, m))) {
			x.fail("out", "not nil")
		}
	}) == nil
}

// sameSelf: the value being encoded is as it was.
func (d *encDriver) sameSelf(e *Exec) bool {
	v := e.st.heap[d.sobj]
	if o, ok := v.(*Opq); ok {
		return o.t == d.s0.(*Opq).t && !e.touched(o.t)
	}
	if t, ok := v.(*Term); ok {
		return Val(t) == d.s0
	}
	if o, ok := d.s0.(*Opq); ok {
		return e.reifyT(v, o.T) == o.t
	}
	return false
}

func (d *encDriver) returned(l *elive, o outcome) {
	t, e := d.t, o.e
	if !t.feasible(e.st.pc) {
		return
	}
	if len(o.ret) != 1 {
		panic(unsupported("results of MarshalTo"))
	}
	for _, x := range t.explore(e.st, e, func(x *Exec) { x.result = x.branch(x.err(o.ret[0]).nil_) }) {
		if !x.result.(bool) {
			d.errorReturn(x, x.err(o.ret[0]))
			continue
		}
		segs := d.segs(x)
		if d.failed {
			d.successErr(x)
			continue
		}
		if x.prove(d.snil) {
			c := &cur{segs: segs}
			ok := l.pos == epos{} && c.lit("null") && c.done()
			x.obligation("nil receiver", "nil", ok, "a nil receiver is written as "+(&cur{segs: segs}).show(), token.NoPos)
			continue
		}
		end, part, v := d.scan(x, l.pos, segs)
		switch {
		case v != nil:
			var m *member
			if l.pos.i < len(d.ms) {
				m = d.guess(v, l.pos.i)
			}
			d.rep(x, v, m, nil)
		case part || !end.closed:
			d.rep(x, &verdict{kind: "out", detail: "the output ends before the object is complete"}, nil, nil)
		default:
			t.okObl(x, "output complete", token.NoPos)
		}
		d.successErr(x)
	}
}

func (d *encDriver) successErr(x *Exec) {
	w := x.st.heap[d.wobj].(*WriterV)
	ok := x.prove(w.err.nil_)
	if c := (&cur{segs: w.segs}); !ok && c.lit("null") && c.done() {
		ok = true // nothing was encoded; the failure stays recorded in the buffer
	}
	if !ok && d.leaf {
		// an earlier failure stays recorded in the buffer; the enclosing value reports it
		w0 := d.base.st.heap[d.wobj].(*WriterV)
		ok = x.prove(x.b().Eq(w.err.nil_, w0.err.nil_))
	}
	x.obligation("recorded failure returned", "err", ok, "a failure recorded in the output buffer is not returned", token.NoPos)
	if failureSeen(x.st, nil) && !x.prove(x.b().Not(w.err.nil_)) {
		x.obligation("nested failure returned", "err", false, "the failure of a nested encoder is lost", token.NoPos)
	}
	if !d.sameSelf(x) {
		x.obligation("value unchanged", "value", false, "encoding changes the value", token.NoPos)
	}
}

func (d *encDriver) errorReturn(x *Exec, ev *ErrV) {
	just := false
	w := x.st.heap[d.wobj].(*WriterV)
	if !w.err.nil_.isTrue() && x.prove(d.t.b.Not(w.err.nil_)) {
		just = true
	}
	for _, p := range x.st.pc {
		if isFailureFact(p) {
			just = true
		}
	}
	x.obligation("error return", "err", just, "encoding fails ("+ev.desc+") although nothing failed", token.NoPos)
}

func (d *encDriver) runWhole(n *types.Named) {
	t := d.t
	T := types.Type(n.Underlying())
	if r := t.transitRHS(n); r != nil {
		T, d.leaf = r, true
	}
	switch T.Underlying().(type) {
	case *types.Slice, *types.Array, *types.Map:
		_, _, bs := isByteSeq(T)
		d.leaf = d.leaf || bs
	default:
		d.leaf = true
	}
	for _, x := range t.explore(d.base.st, d.base, func(x *Exec) {
		x.block(d.body)
		f := x.fr()
		r := x.finish(f)
		x.frames = append(x.frames, f)
		x.result = nil
		if !x.branch(x.err(r[0]).nil_) {
			x.result = x.err(r[0])
		}
	}) {
		if ev, ok := x.result.(*ErrV); ok {
			d.errorReturn(x, ev)
			continue
		}
		segs := d.segs(x)
		if x.prove(d.snil) {
			c := &cur{segs: segs}
			x.obligation("nil receiver", "nil", c.lit("null") && c.done(), "a nil receiver is written as "+(&cur{segs: segs}).show(), token.NoPos)
			continue
		}
		v := t.decideDev(x, func(y *Exec) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(partialOut); ok {
						y.fail("out", "the output is incomplete: %s", (&cur{segs: segs}).show())
					}
					panic(r)
				}
			}()
			d.noFailure(y)
			c := &cur{segs: segs}
			y.matchEnc(T, d.s0, c, ectx{what: "the value", top: true})
			if !c.done() {
				y.fail("out", "unexpected output %s after the value", c.show())
			}
		})
		if v != nil {
			d.rep(x, v, nil, nil)
		} else {
			t.okObl(x, "output", token.NoPos)
		}
		d.successErr(x)
	}
}

// needsEscape: the text cannot stand between quotes as it is.
func needsEscape(s string) bool { return strings.ContainsAny(s, "\"\\") }

// unescapedZero: the zero time follows, with quotes of the layout as they are.
func (x *Exec) unescapedZero(c *cur, layout string) bool {
	z := time.Time{}.Format(layout)
	return needsEscape(z) && x.t.dev && x.t.allowed("layout-unescaped") && c.lit(`"`+z+`"`) && x.deviate("layout-unescaped")
}

// isArray: omitempty need not leave out an array.
func isArray(T types.Type) bool {
	_, ok := under(T).(*types.Array)
	return ok
}
