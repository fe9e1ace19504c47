package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
)

var maxU64 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))

// Loc is a place in memory.
type Loc struct {
	obj  int
	path []Step
}

func (l Loc) add(s Step) Loc {
	return Loc{l.obj, append(append([]Step(nil), l.path...), s)}
}

type frame struct {
	info   *types.Info
	pkg    *types.Package
	res    []types.Object // named results
	resT   []types.Type
	defers []func(e *Exec)
	ret    []Val
}

func (e *Exec) fr() *frame        { return e.frames[len(e.frames)-1] }
func (e *Exec) info() *types.Info { return e.fr().info }
func (e *Exec) b() *Bank          { return e.t.b }

// ---------------------------------------------------------------- values

func (t *Task) valSort(T types.Type) (Sort, bool) {
	if s, ok := scalarSort(T); ok {
		return s, true
	}
	if timeLike(T) || uuidLike(T) {
		return SU, true
	}
	return "", false
}

func basicName(T types.Type) string { return types.Typ[under(T).(*types.Basic).Kind()].Name() }

// proj is the component of x called name, of Go type T.
func (t *Task) proj(x *Term, name string, T types.Type) Val {
	if s, ok := t.valSort(T); ok {
		if s == SInt {
			name = "i:" + basicName(T) + ":" + name
		}
		return t.b.App(name, s, x)
	}
	return &Opq{t.b.App(name, SU, x), T}
}

func (t *Task) proj2(x, i *Term, name string, T types.Type) Val {
	if s, ok := t.valSort(T); ok {
		if s == SInt {
			name = "i:" + basicName(T) + ":" + name
		}
		return t.b.App(name, s, x, i)
	}
	return &Opq{t.b.App(name, SU, x, i), T}
}

// symbol is an arbitrary value of type T.
func (t *Task) symbol(name string, T types.Type, args ...*Term) Val {
	if s, ok := t.valSort(T); ok {
		if s == SInt {
			name = "i:" + basicName(T) + ":" + name
		}
		return t.b.App(name, s, args...)
	}
	return &Opq{t.b.App(name, SU, args...), T}
}

func (e *Exec) zeroVal(T types.Type) Val {
	b := e.b()
	if s, ok := scalarSort(T); ok {
		switch s {
		case SBool:
			return b.F
		case SInt:
			return b.Int(0)
		case SStr:
			return b.Str("")
		case SJV:
			return b.App("jv:nil", SJV)
		case SF64:
			return e.floatConst(0, SF64)
		case SF32:
			return e.floatConst(0, SF32)
		}
	}
	if timeLike(T) {
		return b.App("zero:time", SU)
	}
	if uuidLike(T) {
		return b.App("zero:uuid", SU)
	}
	if isErrorType(T) {
		return &ErrV{nil_: b.T}
	}
	if n := namedOf(T); n != nil && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case jwPath + ".Writer":
			return &WriterV{err: &ErrV{nil_: b.T}}
		case fjPath + ".ParserPool":
			return &LibV{kind: "pool"}
		}
	}
	switch u := under(T).(type) {
	case *types.Pointer:
		if typeIs(u.Elem(), fjPath, "Object") {
			return &ObjV{b.App("jv:nil", SJV)}
		}
		return &PtrV{nil_: b.T, elem: u.Elem()}
	case *types.Slice:
		return &SliceV{nil_: b.T, len: b.Int(0), cap: b.Int(0), off: b.Int(0), elem: u.Elem(), seq: &Seq{n: b.Int(0), elem: u.Elem(), zero: true}}
	case *types.Map:
		return &MapV{nil_: b.T, T: u, c: &MapC{}}
	case *types.Array:
		return &Seq{n: b.Int(u.Len()), elem: u.Elem(), zero: true}
	case *types.Struct:
		s := &StructV{T: T}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Signature, *types.Interface:
		return &LibV{kind: "nil"}
	}
	panic(unsupported("zero value of %s", T))
}

func (e *Exec) floatConst(f float64, s Sort) *Term {
	if s == SF32 {
		return e.b().FConst(SF32, fmt.Sprintf("((_ to_fp 8 24) #x%08x)", math.Float32bits(float32(f))))
	}
	return e.b().FConst(SF64, fmt.Sprintf("((_ to_fp 11 53) #x%016x)", math.Float64bits(f)))
}

// force expands an opaque value one level.
func (e *Exec) force(v Val) Val {
	for {
		switch x := v.(type) {
		case *CaseV:
			v = e.resolve(x)
			continue
		case *Opq:
			return e.expand(x)
		}
		return v
	}
}

func (e *Exec) resolve(c *CaseV) Val {
	for i, a := range c.cases {
		if i == len(c.cases)-1 && c.total {
			e.assumeCheck(a.cond)
			return a.v
		}
		if e.branch(a.cond) {
			return a.v
		}
	}
	e.kill()
	return nil
}

func (e *Exec) expand(o *Opq) Val {
	b := e.b()
	t := o.t
	if s, ok := e.t.valSort(o.T); ok {
		panic(unsupported("opaque scalar %s of sort %s", o.t, s))
	}
	switch u := under(o.T).(type) {
	case *types.Pointer:
		return &PtrV{nil_: b.App("isnil", SBool, t), org: t, elem: u.Elem()}
	case *types.Slice:
		n := b.App("cap", SInt, t)
		key := "arr:" + t.key
		obj, ok := e.st.lazy[key]
		if !ok {
			obj = e.materialise(key, t, &Seq{n: n, elem: u.Elem(), org: t})
		}
		return &SliceV{nil_: b.App("isnil", SBool, t), len: b.App("len", SInt, t), cap: n, off: b.Int(0), arr: obj, elem: u.Elem(), org: t}
	case *types.Map:
		key := "map:" + t.key
		obj, ok := e.st.lazy[key]
		if !ok {
			obj = e.materialise(key, t, &MapC{org: t})
		}
		return &MapV{nil_: b.App("isnil", SBool, t), obj: obj, T: u, org: t}
	case *types.Array:
		return &Seq{n: b.Int(u.Len()), elem: u.Elem(), org: t}
	case *types.Struct:
		s := &StructV{T: o.T}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.t.proj(t, "f."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	}
	panic(unsupported("value of type %s", o.T))
}

func (e *Exec) at(org, i *Term, T types.Type) Val { return e.t.proj2(org, i, "at", T) }

// seqAt reads the element i of an array.
func (e *Exec) seqAt(s *Seq, i *Term) Val {
	b := e.b()
	for k := len(s.over) - 1; k >= 0; k-- {
		w := s.over[k]
		if w.fill {
			in := b.And(b.Le(w.lo, i), b.Lt(i, b.Add(w.lo, w.n)))
			if e.branch(in) {
				return e.t.substVal(w.v, w.idx, b.Sub(i, w.lo))
			}
			continue
		}
		if e.branch(b.Eq(w.i, i)) {
			return w.v
		}
	}
	switch {
	case s.base != nil:
		return s.base(e, i)
	case s.jv != nil:
		return b.App("jat", SJV, s.jv, i)
	case s.win != nil:
		return e.seqAt(s.win.in, b.Add(i, s.win.off))
	case s.spl != nil:
		if e.branch(b.And(b.Le(s.spl.lo, i), b.Lt(i, s.spl.hi))) {
			return e.seqAt(s.spl.a, b.Sub(i, s.spl.lo))
		}
		return e.seqAt(s.spl.b, i)
	case s.hv != "":
		return e.t.symbol(s.hv, s.elem, append([]*Term{i}, e.loopIdx...)...)
	case s.org != nil:
		return e.at(s.org, i, s.elem)
	case s.zero:
		return e.zeroVal(s.elem)
	}
	return &Havoc{"array content"}
}

// loadAt reads component path of v.
func (e *Exec) loadAt(v Val, path []Step) Val {
	for _, p := range path {
		v = e.force(v)
		switch x := v.(type) {
		case *StructV:
			if p.idx != nil {
				panic(unsupported("index into struct"))
			}
			v = x.f[p.fld]
		case *Seq:
			v = e.seqAt(x, p.idx)
		case *Havoc:
			panic(unsupported("use of %s", x.why))
		default:
			panic(unsupported("component of %T", v))
		}
	}
	if c, ok := v.(*CaseV); ok {
		v = e.resolve(c)
	}
	return v
}

func (e *Exec) storeAt(v Val, path []Step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	v = e.force(v)
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		c := &StructV{T: x.T, f: append([]Val(nil), x.f...)}
		c.f[p.fld] = e.storeAt(x.f[p.fld], path[1:], nv)
		return c
	case *Seq:
		var inner Val = nv
		if len(path) > 1 {
			inner = e.storeAt(e.seqAt(x, p.idx), path[1:], nv)
		}
		c := *x
		c.over = append([]seqW(nil), x.over...)
		for len(c.over) > 0 {
			l := c.over[len(c.over)-1]
			if !l.fill && l.i == p.idx {
				c.over = c.over[:len(c.over)-1]
				continue
			}
			break
		}
		c.over = append(c.over, seqW{i: p.idx, v: inner})
		return &c
	}
	panic(unsupported("store into %T", v))
}

func (e *Exec) load(l Loc) Val {
	v := e.st.heap[l.obj]
	if len(l.path) == 0 {
		if c, ok := v.(*CaseV); ok {
			return e.resolve(c)
		}
		return v
	}
	return e.loadAt(v, l.path)
}

func (e *Exec) store(l Loc, v Val) {
	if len(l.path) == 0 {
		e.st.heap[l.obj] = v
		return
	}
	e.st.heap[l.obj] = e.storeAt(e.st.heap[l.obj], l.path, v)
}

// deref is the place a pointer refers to.
func (e *Exec) deref(v Val, pos token.Pos) Loc {
	v = e.force(v)
	p, ok := v.(*PtrV)
	if !ok {
		panic(unsupported("dereference of %T", v))
	}
	dev := ""
	if e.t.method == "MarshalTo" && p.elem != nil && uuidLike(p.elem) {
		dev = "nil-uuid-panics"
	}
	e.requireDev(e.b().Not(p.nil_), "nil-deref", "panic", dev, pos)
	return e.ptrLoc(p)
}

func (e *Exec) ptrLoc(p *PtrV) Loc {
	if p.obj != 0 {
		return Loc{p.obj, p.path}
	}
	if p.org != nil {
		key := "ptr:" + p.org.key
		obj, ok := e.st.lazy[key]
		if !ok {
			obj = e.materialise(key, p.org, e.t.proj(p.org, "deref", p.elem))
		}
		return Loc{obj, nil}
	}
	if p.box != nil {
		return Loc{e.alloc(p.box), nil}
	}
	e.kill()
	return Loc{}
}

func (e *Exec) term(v Val) *Term {
	v = e.force1(v)
	switch x := v.(type) {
	case *Term:
		return x
	case *BorrowS:
		return x.t
	case *Havoc:
		panic(unsupported("use of %s", x.why))
	}
	panic(unsupported("scalar expected, found %T", v))
}

func (e *Exec) force1(v Val) Val {
	if c, ok := v.(*CaseV); ok {
		return e.force1(e.resolve(c))
	}
	return v
}

func (e *Exec) slice(v Val) *SliceV {
	v = e.force(v)
	if s, ok := v.(*SliceV); ok {
		return s
	}
	panic(unsupported("slice expected, found %s", showVal(v)))
}

// seqOf is the content of a slice's backing array.
func (e *Exec) seqOf(s *SliceV) *Seq {
	if s.arr != 0 {
		v := e.loadAt(e.st.heap[s.arr], s.apath)
		q, ok := e.force(v).(*Seq)
		if !ok {
			panic(unsupported("backing array %T", v))
		}
		return q
	}
	return s.seq
}

func (e *Exec) sliceAt(s *SliceV, i *Term) Val {
	return e.force1(e.seqAt(e.seqOf(s), e.b().Add(s.off, i)))
}

func (e *Exec) mapC(m *MapV) *MapC {
	if m.obj != 0 {
		return e.st.heap[m.obj].(*MapC)
	}
	return m.c
}

// ---------------------------------------------------------------- expressions

func (e *Exec) constVal(cv constant.Value, T types.Type) Val {
	b := e.b()
	s, ok := scalarSort(T)
	if !ok {
		if bt, isB := under(T).(*types.Basic); isB && bt.Kind() == types.UntypedNil {
			return &LibV{kind: "nil"}
		}
		panic(unsupported("constant of type %s", T))
	}
	switch s {
	case SBool:
		return b.Bool(constant.BoolVal(cv))
	case SStr:
		return b.Str(constant.StringVal(cv))
	case SInt:
		iv := constant.ToInt(cv)
		n, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			panic(unsupported("constant %s", cv))
		}
		return b.Big(n)
	case SF64, SF32:
		f, _ := constant.Float64Val(constant.ToFloat(cv))
		return e.floatConst(f, s)
	}
	panic(unsupported("constant %s", cv))
}

func (e *Exec) typeOf(x ast.Expr) types.Type {
	tv, ok := e.info().Types[x]
	if ok {
		return tv.Type
	}
	if id, ok := x.(*ast.Ident); ok {
		if o := e.objOf(id); o != nil {
			return o.Type()
		}
	}
	panic(unsupported("untyped expression"))
}

func (e *Exec) objOf(id *ast.Ident) types.Object {
	if o := e.info().Defs[id]; o != nil {
		return o
	}
	return e.info().Uses[id]
}

func (e *Exec) declare(o types.Object, v Val) {
	if o == nil || o.Name() == "_" {
		return
	}
	e.st.env[o] = e.alloc(v)
	e.scope = append(e.scope, o)
}

func (e *Exec) eval(x ast.Expr) Val {
	tv, ok := e.info().Types[x]
	if ok && tv.Value != nil {
		return e.constVal(tv.Value, tv.Type)
	}
	b := e.b()
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.Ident:
		if x.Name == "nil" && ok && tv.IsNil() {
			return &LibV{kind: "nil"}
		}
		o := e.objOf(x)
		if obj, ok := e.st.env[o]; ok {
			return e.load(Loc{obj: obj})
		}
		switch o := o.(type) {
		case *types.Var:
			if o.Parent() == o.Pkg().Scope() {
				return &LibV{kind: "var:" + o.Pkg().Path() + "." + o.Name(), typ: o.Type()}
			}
		case *types.Func:
			return &LibV{kind: "func", fn: o}
		}
		panic(unsupported("identifier %s", x.Name))
	case *ast.SelectorExpr:
		if sel := e.info().Selections[x]; sel != nil {
			if sel.Kind() != types.FieldVal {
				panic(unsupported("method value %s", x.Sel.Name))
			}
			return e.fieldVal(x, sel)
		}
		o := e.info().Uses[x.Sel]
		switch o := o.(type) {
		case *types.Var:
			if o.Pkg().Path() == "github.com/google/uuid" && o.Name() == "Nil" {
				return b.App("zero:uuid", SU)
			}
			return &LibV{kind: "var:" + o.Pkg().Path() + "." + o.Name(), typ: o.Type()}
		case *types.Func:
			return &LibV{kind: "func", fn: o}
		}
		panic(unsupported("selector %s", x.Sel.Name))
	case *ast.StarExpr:
		l := e.deref(e.eval(x.X), x.Pos())
		return e.load(l)
	case *ast.UnaryExpr:
		return e.unary(x)
	case *ast.BinaryExpr:
		return e.binary(x)
	case *ast.IndexExpr:
		return e.index(x)
	case *ast.SliceExpr:
		return e.sliceExpr(x)
	case *ast.CompositeLit:
		return e.composite(x)
	case *ast.FuncLit:
		return &FuncV{lit: x}
	case *ast.CallExpr:
		vs := e.call(x)
		if len(vs) == 1 {
			return vs[0]
		}
		return &TupleV{vs}
	case *ast.TypeAssertExpr:
		panic(unsupported("type assertion"))
	}
	_ = b
	panic(unsupported("expression %T", x))
}

func (e *Exec) addressable(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.addressable(x.X)
	case *ast.Ident:
		_, ok := e.st.env[e.objOf(x)]
		return ok
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		sel := e.info().Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		if _, isP := under(e.typeOf(x.X)).(*types.Pointer); isP {
			return true
		}
		return e.addressable(x.X)
	case *ast.IndexExpr:
		switch u := under(e.typeOf(x.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_ = u
			return true
		case *types.Array:
			return e.addressable(x.X)
		}
	}
	return false
}

func (e *Exec) fieldVal(x *ast.SelectorExpr, sel *types.Selection) Val {
	if e.addressable(x) {
		l := e.addr(x)
		if w, ok := e.st.heap[l.obj].(*WriterV); ok && len(l.path) > 0 {
			return e.writerField(w, l, x)
		}
		return e.load(l)
	}
	v := e.eval(x.X)
	T := e.typeOf(x.X)
	for _, i := range sel.Index() {
		if p, ok := under(T).(*types.Pointer); ok {
			v = e.load(e.deref(v, x.Pos()))
			T = p.Elem()
		}
		v = e.loadAt(v, []Step{{fld: i}})
		T = under(T).(*types.Struct).Field(i).Type()
	}
	return v
}

// writerField reads a field of a jwriter.Writer.
func (e *Exec) writerField(w *WriterV, l Loc, x *ast.SelectorExpr) Val {
	if x.Sel.Name == "Error" {
		return w.err
	}
	if x.Sel.Name == "Buffer" {
		return &LibV{kind: "wbuf", obj: l.obj}
	}
	panic(unsupported("writer field %s", x.Sel.Name))
}

func (e *Exec) addr(x ast.Expr) Loc {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.addr(x.X)
	case *ast.Ident:
		if obj, ok := e.st.env[e.objOf(x)]; ok {
			return Loc{obj: obj}
		}
		panic(unsupported("address of %s", x.Name))
	case *ast.StarExpr:
		return e.deref(e.eval(x.X), x.Pos())
	case *ast.SelectorExpr:
		sel := e.info().Selections[x]
		if sel == nil {
			panic(unsupported("address of %s", x.Sel.Name))
		}
		T := e.typeOf(x.X)
		var l Loc
		if p, ok := under(T).(*types.Pointer); ok {
			l = e.deref(e.eval(x.X), x.Pos())
			T = p.Elem()
		} else {
			l = e.addr(x.X)
		}
		idx := sel.Index()
		for n, i := range idx {
			if n > 0 {
				if p, ok := under(T).(*types.Pointer); ok {
					l = e.deref(e.load(l), x.Pos())
					T = p.Elem()
				}
			}
			l = l.add(Step{fld: i})
			T = under(T).(*types.Struct).Field(i).Type()
		}
		return l
	case *ast.IndexExpr:
		i := e.term(e.eval(x.Index))
		switch u := under(e.typeOf(x.X)).(type) {
		case *types.Slice:
			s := e.slice(e.eval(x.X))
			e.inRange(i, s.len, x.Pos())
			if s.arr == 0 {
				s = e.reopen(s)
			}
			return Loc{s.arr, append(append([]Step(nil), s.apath...), Step{idx: e.b().Add(s.off, i)})}
		case *types.Array:
			e.inRange(i, e.b().Int(u.Len()), x.Pos())
			return e.addr(x.X).add(Step{idx: i})
		case *types.Pointer:
			a := under(u.Elem()).(*types.Array)
			l := e.deref(e.eval(x.X), x.Pos())
			e.inRange(i, e.b().Int(a.Len()), x.Pos())
			return l.add(Step{idx: i})
		}
	}
	panic(unsupported("address of %T", x))
}

// reopen gives a closed slice a backing array object of its own.
func (e *Exec) reopen(s *SliceV) *SliceV {
	c := *s
	c.arr = e.alloc(s.seq)
	c.seq = nil
	return &c
}

func (e *Exec) inRange(i, n *Term, pos token.Pos) {
	b := e.b()
	e.require(b.And(b.Le(b.Int(0), i), b.Lt(i, n)), "index", "panic", pos)
}

func (e *Exec) index(x *ast.IndexExpr) Val {
	if _, ok := under(e.typeOf(x.X)).(*types.Map); ok {
		m := e.force(e.eval(x.X)).(*MapV)
		return e.mapGet(m, e.eval(x.Index))
	}
	if bt, ok := under(e.typeOf(x.X)).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		s := e.term(e.eval(x.X))
		i := e.term(e.eval(x.Index))
		e.inRange(i, e.b().App("strlen", SInt, s), x.Pos())
		return e.b().App("i:uint8:strat", SInt, s, i)
	}
	if e.addressable(x) {
		if _, ok := under(e.typeOf(x.X)).(*types.Slice); ok {
			bv := e.force(e.eval(x.X))
			if by, ok := bv.(*BytesV); ok {
				i := e.term(e.eval(x.Index))
				e.inRange(i, e.b().App("strlen", SInt, by.t), x.Pos())
				return e.b().App("i:uint8:strat", SInt, by.t, i)
			}
		}
		return e.load(e.addr(x))
	}
	a, ok := e.force(e.eval(x.X)).(*Seq)
	if !ok {
		panic(unsupported("index of %s", e.typeOf(x.X)))
	}
	i := e.term(e.eval(x.Index))
	e.inRange(i, a.n, x.Pos())
	return e.force1(e.seqAt(a, i))
}

func (e *Exec) mapGet(m *MapV, k Val) Val {
	c := e.mapC(m)
	for i := len(c.ops) - 1; i >= 0; i-- {
		op := c.ops[i]
		if op.kind == "set" && e.sameVal(op.k, k) {
			return op.v
		}
		panic(unsupported("map read after writes"))
	}
	if c.org == nil {
		return e.zeroVal(m.T.Elem())
	}
	return e.t.proj2(c.org, e.reify(k), "mget", m.T.Elem())
}

func (e *Exec) sliceExpr(x *ast.SliceExpr) Val {
	b := e.b()
	var lo, hi *Term
	T := e.typeOf(x.X)
	var base *SliceV
	switch u := under(T).(type) {
	case *types.Slice:
		v := e.force(e.eval(x.X))
		if by, ok := v.(*BytesV); ok {
			return e.bytesSlice(by, x)
		}
		base = e.slice(v)
	case *types.Array:
		if e.addressable(x.X) {
			l := e.addr(x.X)
			base = &SliceV{nil_: b.F, len: b.Int(u.Len()), cap: b.Int(u.Len()), off: b.Int(0), arr: l.obj, apath: l.path, elem: u.Elem()}
		} else {
			base = &SliceV{nil_: b.F, len: b.Int(u.Len()), cap: b.Int(u.Len()), off: b.Int(0), seq: e.force(e.eval(x.X)).(*Seq), elem: u.Elem()}
		}
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		l := e.deref(e.eval(x.X), x.Pos())
		base = &SliceV{nil_: b.F, len: b.Int(a.Len()), cap: b.Int(a.Len()), off: b.Int(0), arr: l.obj, apath: l.path, elem: a.Elem()}
	default:
		panic(unsupported("slicing %s", T))
	}
	if x.Slice3 {
		panic(unsupported("three-index slice"))
	}
	lo, hi = b.Int(0), base.len
	if x.Low != nil {
		lo = e.term(e.eval(x.Low))
	}
	if x.High != nil {
		hi = e.term(e.eval(x.High))
	}
	if x.Low == nil && x.High == nil {
		return base
	}
	e.require(b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, base.cap)), "slice-bounds", "panic", x.Pos())
	r := *base
	r.off = b.Add(base.off, lo)
	r.len = b.Sub(hi, lo)
	r.cap = b.Sub(base.cap, lo)
	r.org = nil
	if lo.isInt() && lo.val.Sign() == 0 {
		r.org = base.org
	}
	return &r
}

func (e *Exec) bytesSlice(by *BytesV, x *ast.SliceExpr) Val {
	b := e.b()
	n := b.App("strlen", SInt, by.t)
	lo, hi := b.Int(0), n
	if x.Low != nil {
		lo = e.term(e.eval(x.Low))
	}
	if x.High != nil {
		hi = e.term(e.eval(x.High))
	}
	if lo.isInt() && lo.val.Sign() == 0 && hi == n {
		return by
	}
	e.require(b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, n)), "slice-bounds", "panic", x.Pos())
	return &BytesV{nil_: by.nil_, t: b.App("substr", SStr, by.t, lo, hi), borrowed: by.borrowed}
}

func (e *Exec) composite(x *ast.CompositeLit) Val {
	T := e.typeOf(x)
	b := e.b()
	if timeLike(T) || uuidLike(T) {
		if len(x.Elts) > 0 {
			panic(unsupported("composite literal of %s", T))
		}
		return e.zeroVal(T)
	}
	switch u := under(T).(type) {
	case *types.Struct:
		z := e.zeroVal(T)
		s, ok := z.(*StructV)
		if !ok {
			return z
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						s.f[j] = e.evalAs(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				s.f[i] = e.evalAs(el, u.Field(i).Type())
			}
		}
		return s
	case *types.Slice, *types.Array:
		var elem types.Type
		if sl, ok := u.(*types.Slice); ok {
			elem = sl.Elem()
		} else {
			elem = u.(*types.Array).Elem()
		}
		if bt, ok := under(elem).(*types.Basic); ok && bt.Kind() == types.Uint8 {
			if _, isS := u.(*types.Slice); isS {
				var bs []byte
				ok := true
				for _, el := range x.Elts {
					tv := e.info().Types[el]
					if tv.Value == nil {
						ok = false
						break
					}
					n, _ := constant.Int64Val(constant.ToInt(tv.Value))
					bs = append(bs, byte(n))
				}
				if ok {
					return &BytesV{nil_: b.F, t: b.Str(string(bs))}
				}
			}
		}
		sq := &Seq{n: b.Int(int64(len(x.Elts))), elem: elem, zero: true}
		if a, ok := u.(*types.Array); ok {
			sq.n = b.Int(a.Len())
		}
		for i, el := range x.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsupported("keyed array literal"))
			}
			sq.over = append(sq.over, seqW{i: b.Int(int64(i)), v: e.evalAs(el, elem)})
		}
		if _, ok := u.(*types.Array); ok {
			return sq
		}
		return &SliceV{nil_: b.F, len: sq.n, cap: sq.n, off: b.Int(0), arr: e.alloc(sq), elem: elem}
	case *types.Map:
		m := &MapV{nil_: b.F, T: u, obj: e.alloc(&MapC{})}
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			e.mapSet(m, e.evalAs(kv.Key, u.Key()), e.evalAs(kv.Value, u.Elem()), x.Pos())
		}
		return m
	}
	panic(unsupported("composite literal of %s", T))
}

// evalAs evaluates x where a value of type T is wanted (nil gets its type).
func (e *Exec) evalAs(x ast.Expr, T types.Type) Val { return e.as(e.eval(x), T) }

func (e *Exec) as(v Val, T types.Type) Val {
	if l, ok := v.(*LibV); ok && l.kind == "nil" && T != nil {
		if _, isI := under(T).(*types.Interface); isI && !isErrorType(T) {
			return v
		}
		return e.zeroVal(T)
	}
	return v
}

func (e *Exec) unary(x *ast.UnaryExpr) Val {
	b := e.b()
	switch x.Op {
	case token.NOT:
		return b.Not(e.term(e.eval(x.X)))
	case token.SUB:
		v := e.term(e.eval(x.X))
		if v.sort == SInt {
			return e.wrap(b.Sub(b.Int(0), v), e.typeOf(x))
		}
		return b.mk("fp.neg", "", v.sort, []*Term{v})
	case token.AND:
		if cl, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
			return &PtrV{nil_: b.F, obj: e.alloc(e.composite(cl)), elem: e.typeOf(cl)}
		}
		l := e.addr(x.X)
		return &PtrV{nil_: b.F, obj: l.obj, path: l.path, elem: e.typeOf(x.X)}
	case token.ADD:
		return e.eval(x.X)
	}
	panic(unsupported("operator %s", x.Op))
}

// wrap brings a mathematical integer into the range of T by modular reduction.
func (e *Exec) wrap(v *Term, T types.Type) *Term {
	lo, hi, ok := intRange(T)
	if !ok {
		return v
	}
	b := e.b()
	if v.isInt() && v.val.Cmp(lo) >= 0 && v.val.Cmp(hi) <= 0 {
		return v
	}
	if e.prove(b.And(b.Le(b.Big(lo), v), b.Le(v, b.Big(hi)))) {
		return v
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	return b.Add(b.Mod(b.Sub(v, b.Big(lo)), size), b.Big(lo))
}

func (e *Exec) isNil(v Val) *Term {
	b := e.b()
	switch x := e.force(v).(type) {
	case *PtrV:
		return x.nil_
	case *SliceV:
		return x.nil_
	case *MapV:
		return x.nil_
	case *ErrV:
		return x.nil_
	case *BytesV:
		return x.nil_
	case *ObjV:
		return e.jnil(x.v)
	case *Term:
		if x.sort == SJV {
			return e.jnil(x)
		}
	case *LibV:
		return b.Bool(x.kind == "nil")
	case *FuncV:
		return b.F
	case *Havoc:
		panic(unsupported("use of %s", x.why))
	}
	panic(unsupported("nil test of %s", showVal(v)))
}

// jnil: the *fastjson.Value is nil. Elements of arrays and objects never are.
func (e *Exec) jnil(v *Term) *Term {
	b := e.b()
	if v.op == "app" {
		switch v.name {
		case "jat", "jval":
			return b.F
		case "jv:nil":
			return b.T
		}
	}
	return b.App("jnil", SBool, v)
}

// valEq is the condition under which Go's == holds.
func (e *Exec) valEq(x, y Val) *Term {
	b := e.b()
	x, y = e.force1(x), e.force1(y)
	if l, ok := x.(*LibV); ok && l.kind == "nil" {
		return e.isNil(y)
	}
	if l, ok := y.(*LibV); ok && l.kind == "nil" {
		return e.isNil(x)
	}
	if bx, ok := x.(*BorrowS); ok {
		x = bx.t
	}
	if by, ok := y.(*BorrowS); ok {
		y = by.t
	}
	if tx, ok := x.(*Term); ok {
		if ty, ok := y.(*Term); ok {
			if tx.sort == SF64 || tx.sort == SF32 {
				return b.mk("fp.eq", "", SBool, []*Term{tx, ty})
			}
			if tx.sort == SJV {
				if tx.name == "jv:nil" {
					return e.jnil(ty)
				}
				if ty.name == "jv:nil" {
					return e.jnil(tx)
				}
			}
			if tx.sort == SU && tx.name == "zero:time" {
				tx, ty = ty, tx
			}
			if ty.sort == SU && ty.name == "zero:time" {
				return b.App("timeeq0", SBool, tx)
			}
			return b.Eq(tx, ty)
		}
	}
	x, y = e.force(x), e.force(y)
	switch a := x.(type) {
	case *StructV:
		c, ok := y.(*StructV)
		if ok {
			var cs []*Term
			for i := range a.f {
				cs = append(cs, e.valEq(a.f[i], c.f[i]))
			}
			return b.And(cs...)
		}
	case *Seq:
		c, ok := y.(*Seq)
		if ok {
			if isZeroSeq(a) {
				a, c = c, a
			}
			if isZeroSeq(c) {
				if isZeroSeq(a) {
					return b.T
				}
				return e.arrZero(a)
			}
			if a.org != nil && c.org != nil && len(a.over) == 0 && len(c.over) == 0 {
				return b.Eq(a.org, c.org)
			}
		}
	case *PtrV:
		c, ok := y.(*PtrV)
		if ok {
			if a.nil_.isTrue() {
				return c.nil_
			}
			if c.nil_.isTrue() {
				return a.nil_
			}
		}
	case *ErrV:
		if c, ok := y.(*ErrV); ok {
			if a.nil_.isTrue() {
				return c.nil_
			}
			if c.nil_.isTrue() {
				return a.nil_
			}
		}
	case *MapV, *SliceV, *ObjV:
		if z, ok := y.(*SliceV); ok && z.nil_.isTrue() {
			return e.isNil(x)
		}
		if z, ok := y.(*MapV); ok && z.nil_.isTrue() {
			return e.isNil(x)
		}
	}
	panic(unsupported("comparison of %T and %T", x, y))
}

func isZeroSeq(s *Seq) bool { return s.zero && len(s.over) == 0 }

// arrZero: every element of the array is the zero value.
func (e *Exec) arrZero(s *Seq) *Term {
	if s.n.isInt() && s.n.val.Int64() <= 128 {
		var cs []*Term
		n := s.n.val.Int64()
		for i := int64(0); i < n; i++ {
			cs = append(cs, e.valEq(e.seqAt(s, e.b().Int(i)), e.zeroVal(s.elem)))
		}
		return e.b().And(cs...)
	}
	panic(unsupported("comparison of a long array"))
}

func (e *Exec) binary(x *ast.BinaryExpr) Val {
	b := e.b()
	switch x.Op {
	case token.LAND:
		if !e.branch(e.term(e.eval(x.X))) {
			return b.F
		}
		return e.eval(x.Y)
	case token.LOR:
		if e.branch(e.term(e.eval(x.X))) {
			return b.T
		}
		return e.eval(x.Y)
	}
	l, r := e.eval(x.X), e.eval(x.Y)
	switch x.Op {
	case token.EQL:
		return e.valEq(l, r)
	case token.NEQ:
		return b.Not(e.valEq(l, r))
	}
	lt, rt := e.term(l), e.term(r)
	fl := lt.sort == SF64 || lt.sort == SF32
	switch x.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if fl {
			op := map[token.Token]string{token.LSS: "fp.lt", token.GTR: "fp.gt", token.LEQ: "fp.leq", token.GEQ: "fp.geq"}[x.Op]
			return b.mk(op, "", SBool, []*Term{lt, rt})
		}
		if lt.sort == SStr {
			return b.App("str"+x.Op.String(), SBool, lt, rt)
		}
		switch x.Op {
		case token.LSS:
			return b.Lt(lt, rt)
		case token.GTR:
			return b.Lt(rt, lt)
		case token.LEQ:
			return b.Le(lt, rt)
		}
		return b.Le(rt, lt)
	case token.ADD:
		if lt.sort == SStr {
			return e.concat(lt, rt)
		}
		if lt.sort == SInt {
			return e.wrap(b.Add(lt, rt), e.typeOf(x))
		}
	case token.SUB:
		if lt.sort == SInt {
			return e.wrap(b.Sub(lt, rt), e.typeOf(x))
		}
	case token.MUL:
		if lt.sort == SInt {
			return e.wrap(b.Mul(lt, rt), e.typeOf(x))
		}
	}
	panic(unsupported("operator %s on %s", x.Op, lt.sort))
}

func (e *Exec) concat(x, y *Term) *Term {
	if x.op == "str" && y.op == "str" {
		return e.b().Str(x.name + y.name)
	}
	if x.op == "str" && x.name == "" {
		return y
	}
	if y.op == "str" && y.name == "" {
		return x
	}
	return e.b().App("cat", SStr, x, y)
}

// convert is the Go conversion of v from type `from` to type `to`.
func (e *Exec) convert(v Val, from, to types.Type) Val {
	b := e.b()
	if l, ok := v.(*LibV); ok && l.kind == "nil" {
		return e.zeroVal(to)
	}
	v = e.force1(v)
	fs, fok := scalarSort(from)
	ts, tok := scalarSort(to)
	if fok && tok {
		if bs, ok := v.(*BorrowS); ok {
			if fs == SStr && ts == SStr {
				return bs
			}
		}
		t := e.term(v)
		switch {
		case fs == ts:
			if fs == SInt {
				return e.wrap(t, to)
			}
			return t
		case fs == SInt && (ts == SF64 || ts == SF32):
			return b.App("i2f", ts, t)
		case fs == SF64 && ts == SF32:
			return b.mk("tofp32", "", SF32, []*Term{t})
		case fs == SF32 && ts == SF64:
			return b.mk("tofp64", "", SF64, []*Term{t})
		case (fs == SF64 || fs == SF32) && ts == SInt:
			return e.wrap(b.App("f2i", SInt, t), to)
		case fs == SInt && ts == SStr:
			return b.App("runestr", SStr, t)
		}
		panic(unsupported("conversion %s to %s", from, to))
	}
	if tok && ts == SStr {
		switch x := e.force(v).(type) {
		case *BytesV:
			return x.t
		case *SliceV:
			sq := e.seqOf(x)
			if sq.b64e != nil && sq.b64e.n == x.len {
				return &B64S{sq.b64e.src}
			}
			if sq.org != nil && len(sq.over) == 0 {
				return b.App("bytestr", SStr, sq.org, x.off, x.len)
			}
			return e.fresh("text", SStr)
		case *Havoc:
			return x
		}
	}
	if fok && fs == SStr {
		switch x := v.(type) {
		case *Term:
			return &BytesV{nil_: b.F, t: x}
		case *BorrowS:
			return &BytesV{nil_: b.F, t: x.t}
		}
	}
	// time.Time, uuid.UUID and the types built on them share their representation
	_, fo := e.t.valSort(from)
	_, to_ := e.t.valSort(to)
	switch {
	case fo && !to_:
		if t, ok := v.(*Term); ok {
			return &Opq{b.App("arrof", SU, t), to}
		}
	case !fo && to_:
		if o, ok := v.(*Opq); ok && o.t.op == "app" && o.t.name == "arrof" {
			return o.t.args[0]
		}
		return b.App("leafof", SU, e.reify(v))
	}
	switch x := v.(type) {
	case *Opq:
		return &Opq{x.t, to}
	case *StructV:
		return &StructV{T: to, f: x.f}
	case *PtrV:
		c := *x
		if p, ok := under(to).(*types.Pointer); ok {
			c.elem = p.Elem()
		}
		return &c
	}
	return v
}

// ---------------------------------------------------------------- statements

func (e *Exec) block(list []ast.Stmt) {
	mark := len(e.scope)
	for _, s := range list {
		e.stmt(s)
		if e.ctl != cNormal {
			break
		}
	}
	e.leave(mark)
}

func (e *Exec) leave(mark int) {
	for _, o := range e.scope[mark:] {
		delete(e.st.env, o)
	}
	e.scope = e.scope[:mark:mark]
}

func (e *Exec) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.BlockStmt:
		e.block(s.List)
	case *ast.ExprStmt:
		if c, ok := ast.Unparen(s.X).(*ast.CallExpr); ok {
			e.call(c)
			return
		}
		e.eval(s.X)
	case *ast.EmptyStmt:
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			var vals []Val
			for _, v := range vs.Values {
				vals = append(vals, e.eval(v))
			}
			if len(vals) == 1 && len(vs.Names) > 1 {
				vals = vals[0].(*TupleV).vs
			}
			for i, n := range vs.Names {
				o := e.info().Defs[n]
				if o == nil {
					continue
				}
				if len(vals) == 0 {
					e.declare(o, e.zeroVal(o.Type()))
				} else {
					e.declare(o, e.as(vals[i], o.Type()))
				}
			}
		}
	case *ast.AssignStmt:
		e.assign(s)
	case *ast.IncDecStmt:
		d := int64(1)
		if s.Tok == token.DEC {
			d = -1
		}
		l := e.addr(s.X)
		e.store(l, e.wrap(e.b().Add(e.term(e.load(l)), e.b().Int(d)), e.typeOf(s.X)))
	case *ast.IfStmt:
		mark := len(e.scope)
		if s.Init != nil {
			e.stmt(s.Init)
		}
		if e.branch(e.term(e.eval(s.Cond))) {
			e.block(s.Body.List)
		} else if s.Else != nil {
			e.stmt(s.Else)
		}
		e.leave(mark)
	case *ast.SwitchStmt:
		e.switchStmt(s)
	case *ast.ReturnStmt:
		e.ret(s)
	case *ast.BranchStmt:
		if s.Label != nil {
			panic(unsupported("label"))
		}
		switch s.Tok {
		case token.BREAK:
			e.ctl = cBreak
		case token.CONTINUE:
			e.ctl = cContinue
		default:
			panic(unsupported("branch %s", s.Tok))
		}
	case *ast.RangeStmt:
		e.rangeStmt(s)
	case *ast.ForStmt:
		e.forStmt(s)
	case *ast.DeferStmt:
		e.deferStmt(s)
	default:
		panic(unsupported("statement %T", s))
	}
}

func (e *Exec) deferStmt(s *ast.DeferStmt) {
	f := e.fr()
	if fl, ok := s.Call.Fun.(*ast.FuncLit); ok && len(s.Call.Args) == 0 {
		f.defers = append(f.defers, func(e *Exec) { e.callLit(fl, nil) })
		return
	}
	// receiver and arguments are evaluated now
	var args []Val
	for _, a := range s.Call.Args {
		args = append(args, e.eval(a))
	}
	call := s.Call
	f.defers = append(f.defers, func(e *Exec) { e.callWith(call, args) })
}

func (e *Exec) switchStmt(s *ast.SwitchStmt) {
	mark := len(e.scope)
	if s.Init != nil {
		e.stmt(s.Init)
	}
	var tag Val
	if s.Tag != nil {
		tag = e.eval(s.Tag)
	}
	var def *ast.CaseClause
	var hit *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		for _, x := range cc.List {
			var cond *Term
			if tag != nil {
				cond = e.valEq(tag, e.eval(x))
			} else {
				cond = e.term(e.eval(x))
			}
			if e.branch(cond) {
				hit = cc
				break
			}
		}
		if hit != nil {
			break
		}
	}
	if hit == nil {
		hit = def
	}
	if hit != nil {
		for _, st := range hit.Body {
			if b, ok := st.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				panic(unsupported("fallthrough"))
			}
		}
		e.block(hit.Body)
		if e.ctl == cBreak {
			e.ctl = cNormal
		}
	}
	e.leave(mark)
}

func (e *Exec) assign(s *ast.AssignStmt) {
	var vals []Val
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		if ix, ok := s.Rhs[0].(*ast.IndexExpr); ok {
			panic(unsupported("comma-ok %T", ix))
		}
		tv, ok := e.eval(s.Rhs[0]).(*TupleV)
		if !ok {
			panic(unsupported("tuple assignment"))
		}
		vals = tv.vs
	} else {
		for _, r := range s.Rhs {
			vals = append(vals, e.eval(r))
		}
	}
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		b := e.b()
		l := e.addr(s.Lhs[0])
		cur, v := e.load(l), vals[0]
		switch s.Tok {
		case token.ADD_ASSIGN:
			ct := e.term(cur)
			if ct.sort == SStr {
				e.store(l, e.concat(ct, e.term(v)))
				return
			}
			e.store(l, e.wrap(b.Add(ct, e.term(v)), e.typeOf(s.Lhs[0])))
		case token.SUB_ASSIGN:
			e.store(l, e.wrap(b.Sub(e.term(cur), e.term(v)), e.typeOf(s.Lhs[0])))
		default:
			panic(unsupported("assignment %s", s.Tok))
		}
		return
	}
	type target struct {
		skip bool
		decl types.Object
		loc  Loc
		m    *MapV
		k    Val
		w    int
	}
	var ts []target
	for _, l := range s.Lhs {
		l = ast.Unparen(l)
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				ts = append(ts, target{skip: true})
				continue
			}
			if s.Tok == token.DEFINE {
				if o := e.info().Defs[id]; o != nil {
					ts = append(ts, target{decl: o})
					continue
				}
			}
		}
		if ix, ok := l.(*ast.IndexExpr); ok {
			if mt, ok := under(e.typeOf(ix.X)).(*types.Map); ok {
				m := e.force(e.eval(ix.X)).(*MapV)
				ts = append(ts, target{m: m, k: e.evalAs(ix.Index, mt.Key())})
				continue
			}
		}
		lc := e.addr(l)
		if _, ok := e.st.heap[lc.obj].(*WriterV); ok && len(lc.path) > 0 {
			if sel, ok := l.(*ast.SelectorExpr); ok && sel.Sel.Name == "Error" {
				ts = append(ts, target{w: lc.obj})
				continue
			}
			panic(unsupported("assignment to a writer field"))
		}
		ts = append(ts, target{loc: lc})
	}
	for i, t := range ts {
		v := vals[i]
		switch {
		case t.skip:
		case t.decl != nil:
			e.declare(t.decl, e.as(v, t.decl.Type()))
		case t.m != nil:
			e.mapSet(t.m, t.k, e.as(v, t.m.T.Elem()), s.Pos())
		case t.w != 0:
			w := *(e.st.heap[t.w].(*WriterV))
			w.err = e.as(v, types.Universe.Lookup("error").Type()).(*ErrV)
			e.st.heap[t.w] = &w
		default:
			e.store(t.loc, e.as(v, e.typeOf(s.Lhs[i])))
		}
	}
}

func (e *Exec) mapSet(m *MapV, k, v Val, pos token.Pos) {
	e.require(e.b().Not(m.nil_), "nil-map-write", "panic", pos)
	if m.obj == 0 {
		panic(unsupported("write to a closed map"))
	}
	if bs, ok := k.(*BorrowS); ok {
		e.obligation("map key copied", "alias", false, "the map key shares memory with the parser", pos)
		k = bs.t
	}
	c := e.st.heap[m.obj].(*MapC)
	n := &MapC{org: c.org, ops: append(append([]MapOp(nil), c.ops...), MapOp{kind: "set", k: k, v: v})}
	e.st.heap[m.obj] = n
}

func (e *Exec) ret(s *ast.ReturnStmt) {
	f := e.fr()
	var vals []Val
	switch {
	case len(s.Results) == 0:
		for _, o := range f.res {
			vals = append(vals, e.load(Loc{obj: e.st.env[o]}))
		}
	case len(s.Results) == 1 && len(f.resT) > 1:
		vals = e.eval(s.Results[0]).(*TupleV).vs
	default:
		for i, r := range s.Results {
			vals = append(vals, e.as(e.eval(r), f.resT[i]))
		}
	}
	for i, o := range f.res {
		if obj, ok := e.st.env[o]; ok && o.Name() != "_" {
			e.st.heap[obj] = vals[i]
		}
	}
	f.ret = vals
	e.ctl = cReturn
}

// ---------------------------------------------------------------- functions

type bind struct {
	o types.Object
	v Val
}

// enter prepares a frame for a function.
func (e *Exec) enter(info *types.Info, pkg *types.Package, ft *ast.FuncType, sig *types.Signature) *frame {
	f := &frame{info: info, pkg: pkg}
	for i := 0; i < sig.Results().Len(); i++ {
		f.resT = append(f.resT, sig.Results().At(i).Type())
	}
	e.frames = append(e.frames, f)
	if ft.Results != nil {
		for _, fl := range ft.Results.List {
			for _, n := range fl.Names {
				o := info.Defs[n]
				f.res = append(f.res, o)
				obj := e.alloc(e.zeroVal(o.Type()))
				e.st.env[o] = obj
			}
		}
	}
	return f
}

func (e *Exec) bindParams(info *types.Info, ft *ast.FuncType, args []Val) {
	i := 0
	for _, fl := range ft.Params.List {
		if len(fl.Names) == 0 {
			i++
		}
		for _, n := range fl.Names {
			if o := info.Defs[n]; o != nil && n.Name != "_" {
				e.st.env[o] = e.alloc(e.as(args[i], o.Type()))
			}
			i++
		}
	}
}

// finish runs the deferred calls and leaves the frame; returns the results.
func (e *Exec) finish(f *frame) []Val {
	if e.ctl != cReturn && len(f.res) > 0 {
		f.ret = nil
		for _, o := range f.res {
			f.ret = append(f.ret, e.load(Loc{obj: e.st.env[o]}))
		}
	}
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		e.ctl = cNormal
		d(e)
		if len(f.res) > 0 && len(f.ret) == len(f.res) {
			for i, o := range f.res {
				if obj, ok := e.st.env[o]; ok {
					f.ret[i] = e.load(Loc{obj: obj})
				}
			}
		}
	}
	e.ctl = cNormal
	e.frames = e.frames[:len(e.frames)-1]
	return f.ret
}

func (e *Exec) callDecl(p *Pkg, fd *ast.FuncDecl, recv Val, args []Val) []Val {
	if len(e.frames) > 12 {
		panic(unsupported("call depth"))
	}
	fn := p.info.Defs[fd.Name].(*types.Func)
	sig := fn.Type().(*types.Signature)
	if sig.Variadic() {
		panic(unsupported("variadic function %s", fd.Name.Name))
	}
	saved := map[types.Object]int{}
	mark := len(e.scope)
	f := e.enter(p.info, p.types, fd.Type, sig)
	_ = saved
	if fd.Recv != nil && len(fd.Recv.List) > 0 && len(fd.Recv.List[0].Names) > 0 {
		if o := p.info.Defs[fd.Recv.List[0].Names[0]]; o != nil {
			e.st.env[o] = e.alloc(recv)
		}
	}
	e.bindParams(p.info, fd.Type, args)
	e.block(fd.Body.List)
	e.leave(mark)
	return e.finish(f)
}

func (e *Exec) callLit(fl *ast.FuncLit, args []Val) []Val {
	info := e.info()
	sig := info.Types[fl].Type.(*types.Signature)
	mark := len(e.scope)
	f := e.enter(info, e.fr().pkg, fl.Type, sig)
	e.bindParams(info, fl.Type, args)
	e.block(fl.Body.List)
	e.leave(mark)
	return e.finish(f)
}

func (e *Exec) args(c *ast.CallExpr) []Val {
	if len(c.Args) == 1 {
		if tup, ok := e.info().Types[c.Args[0]].Type.(*types.Tuple); ok && tup.Len() > 1 {
			return e.eval(c.Args[0]).(*TupleV).vs
		}
	}
	var vs []Val
	for _, a := range c.Args {
		vs = append(vs, e.eval(a))
	}
	return vs
}

func (e *Exec) call(c *ast.CallExpr) []Val {
	fun := ast.Unparen(c.Fun)
	if tv, ok := e.info().Types[fun]; ok && tv.IsType() {
		return []Val{e.convert(e.eval(c.Args[0]), e.typeOf(c.Args[0]), tv.Type)}
	}
	if id, ok := fun.(*ast.Ident); ok {
		if _, isB := e.info().Uses[id].(*types.Builtin); isB {
			return e.builtin(id.Name, c)
		}
	}
	return e.callWith(c, nil)
}

// callWith performs a call; args, if given, were evaluated before.
func (e *Exec) callWith(c *ast.CallExpr, pre []Val) []Val {
	fun := ast.Unparen(c.Fun)
	getArgs := func() []Val {
		if pre != nil {
			return pre
		}
		return e.args(c)
	}
	switch f := fun.(type) {
	case *ast.Ident:
		switch o := e.info().Uses[f].(type) {
		case *types.Builtin:
			return e.builtin(f.Name, c)
		case *types.Func:
			return e.callFunc(o, c, getArgs())
		case *types.Var:
			v := e.eval(f)
			if fv, ok := v.(*FuncV); ok {
				return e.callLit(fv.lit, getArgs())
			}
		}
	case *ast.SelectorExpr:
		if sel := e.info().Selections[f]; sel != nil {
			if sel.Kind() == types.MethodVal {
				return e.callMethod(f, sel, c, getArgs)
			}
			v := e.eval(f)
			if fv, ok := v.(*FuncV); ok {
				return e.callLit(fv.lit, getArgs())
			}
		}
		if o, ok := e.info().Uses[f.Sel].(*types.Func); ok {
			return e.callFunc(o, c, getArgs())
		}
	case *ast.FuncLit:
		return e.callLit(f, getArgs())
	}
	panic(unsupported("call"))
}

func (e *Exec) builtin(name string, c *ast.CallExpr) []Val {
	b := e.b()
	switch name {
	case "len", "cap":
		T := e.typeOf(c.Args[0])
		if a, ok := under(T).(*types.Array); ok {
			return []Val{b.Int(a.Len())}
		}
		if p, ok := under(T).(*types.Pointer); ok {
			return []Val{b.Int(under(p.Elem()).(*types.Array).Len())}
		}
		v := e.force(e.eval(c.Args[0]))
		switch x := v.(type) {
		case *SliceV:
			if name == "cap" {
				return []Val{x.cap}
			}
			return []Val{x.len}
		case *Term:
			if x.op == "str" {
				return []Val{b.Int(int64(len(x.name)))}
			}
			return []Val{b.App("strlen", SInt, x)}
		case *BorrowS:
			return []Val{b.App("strlen", SInt, x.t)}
		case *BytesV:
			if x.t.op == "str" {
				return []Val{b.Int(int64(len(x.t.name)))}
			}
			return []Val{b.App("strlen", SInt, x.t)}
		case *MapV:
			mc := e.mapC(x)
			if len(mc.ops) == 0 {
				if mc.org == nil {
					return []Val{b.Int(0)}
				}
				return []Val{b.App("mlen", SInt, mc.org)}
			}
			return []Val{e.fresh("maplen", SInt)}
		}
		panic(unsupported("len of %s", showVal(v)))
	case "make":
		T := e.typeOf(c.Args[0])
		var ns []*Term
		for _, a := range c.Args[1:] {
			ns = append(ns, e.term(e.eval(a)))
		}
		switch u := under(T).(type) {
		case *types.Slice:
			n, k := ns[0], ns[0]
			if len(ns) > 1 {
				k = ns[1]
			}
			e.require(b.And(b.Le(b.Int(0), n), b.Le(n, k)), "make-size", "panic", c.Pos())
			return []Val{&SliceV{nil_: b.F, len: n, cap: k, off: b.Int(0), elem: u.Elem(), arr: e.alloc(&Seq{n: k, elem: u.Elem(), zero: true})}}
		case *types.Map:
			return []Val{&MapV{nil_: b.F, T: u, obj: e.alloc(&MapC{})}}
		}
		panic(unsupported("make %s", T))
	case "new":
		T := e.typeOf(c.Args[0])
		return []Val{&PtrV{nil_: b.F, elem: T, obj: e.alloc(e.zeroVal(T))}}
	case "append":
		return []Val{e.appendCall(c)}
	case "delete":
		m := e.force(e.eval(c.Args[0])).(*MapV)
		k := e.eval(c.Args[1])
		if m.obj == 0 {
			return nil
		}
		mc := e.mapC(m)
		e.st.heap[m.obj] = &MapC{org: mc.org, ops: append(append([]MapOp(nil), mc.ops...), MapOp{kind: "del", k: k})}
		return nil
	case "clear":
		switch x := e.force(e.eval(c.Args[0])).(type) {
		case *MapV:
			if x.obj != 0 {
				mc := e.mapC(x)
				e.st.heap[x.obj] = &MapC{org: mc.org, ops: []MapOp{{kind: "clear"}}}
			}
			return nil
		case *SliceV:
			if x.arr != 0 {
				l := Loc{x.arr, x.apath}
				sq := *e.seqOf(x)
				k := e.fresh("clr", SInt)
				sq.over = append(append([]seqW(nil), sq.over...), seqW{fill: true, idx: k, lo: x.off, n: x.len, v: e.zeroVal(x.elem)})
				e.store(l, &sq)
			}
			return nil
		}
	case "copy":
		d := e.slice(e.eval(c.Args[0]))
		sv := e.force(e.eval(c.Args[1]))
		s, ok := sv.(*SliceV)
		if !ok || d.arr == 0 {
			panic(unsupported("copy"))
		}
		n := s.len
		if e.branch(b.Lt(d.len, s.len)) {
			n = d.len
		}
		src := e.seqOf(s)
		old := e.seqOf(d)
		e.store(Loc{d.arr, d.apath}, &Seq{n: old.n, elem: old.elem, spl: &seqSplit{lo: d.off, hi: b.Add(d.off, n), a: &Seq{n: n, elem: s.elem, win: &seqWin{src, s.off}}, b: old}})
		return []Val{n}
	case "min", "max":
		x := e.term(e.eval(c.Args[0]))
		for _, a := range c.Args[1:] {
			y := e.term(e.eval(a))
			if x.sort != SInt {
				panic(unsupported(name))
			}
			lt := b.Lt(y, x)
			if name == "max" {
				lt = b.Lt(x, y)
			}
			x = b.Ite(lt, y, x)
		}
		return []Val{x}
	case "panic":
		e.obligation("no panic@"+e.t.relPos(c.Pos()), "panic", false, "explicit panic is reachable", c.Pos())
		e.kill()
	}
	panic(unsupported("builtin %s", name))
}

func (e *Exec) appendCall(c *ast.CallExpr) Val {
	b := e.b()
	v := e.force(e.eval(c.Args[0]))
	if l, ok := v.(*LibV); ok && l.kind == "nil" {
		v = e.zeroVal(e.typeOf(c))
	}
	if by, ok := v.(*BytesV); ok {
		if c.Ellipsis.IsValid() && len(c.Args) == 2 {
			switch y := e.force(e.eval(c.Args[1])).(type) {
			case *BytesV:
				return &BytesV{nil_: b.F, t: e.concat(by.t, y.t)}
			case *Term:
				return &BytesV{nil_: b.F, t: e.concat(by.t, y)}
			}
		}
		panic(unsupported("append to bytes"))
	}
	s := e.slice(v)
	if c.Ellipsis.IsValid() {
		y := e.force(e.eval(c.Args[1]))
		if by, ok := y.(*BytesV); ok && s.len.isInt() && s.len.val.Sign() == 0 {
			return &BytesV{nil_: b.And(s.nil_, b.Eq(b.App("strlen", SInt, by.t), b.Int(0))), t: by.t}
		}
		o, ok := y.(*SliceV)
		if !ok {
			panic(unsupported("append of %T", y))
		}
		src, ooff := e.seqOf(o), o.off
		old, off, n := e.seqOf(s), s.off, s.len
		nl := b.Add(n, o.len)
		sq := &Seq{n: nl, elem: s.elem, spl: &seqSplit{lo: n, hi: nl, a: &Seq{n: o.len, elem: s.elem, win: &seqWin{src, ooff}}, b: &Seq{n: n, elem: s.elem, win: &seqWin{old, off}}}}
		return &SliceV{nil_: b.And(s.nil_, b.Eq(o.len, b.Int(0))), len: nl, cap: nl, off: b.Int(0), arr: e.alloc(sq), elem: s.elem}
	}
	// the element is written either into spare capacity or into a fresh array; both have the same content,
	// and writing into spare capacity is visible through other slices of the same array, so it is done in place too
	n := s.len
	old, off := e.seqOf(s), s.off
	nl := b.Add(n, b.Int(int64(len(c.Args)-1)))
	var sq *Seq
	if off.isInt() && off.val.Sign() == 0 {
		q := *old
		q.over = append([]seqW(nil), old.over...)
		q.n = nl
		sq = &q
	} else {
		sq = &Seq{n: nl, elem: s.elem, win: &seqWin{old, off}}
	}
	for i, a := range c.Args[1:] {
		sq.over = append(sq.over, seqW{i: b.Add(n, b.Int(int64(i))), v: e.evalAs(a, s.elem)})
	}
	if len(c.Args) == 1 {
		return s
	}
	return &SliceV{nil_: b.F, len: nl, cap: nl, off: b.Int(0), arr: e.alloc(sq), elem: s.elem, appended: true}
}
