package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"
)

// ---------------------------------------------------------------- contracts of library functions

func (e *Exec) noErr() *ErrV { return &ErrV{nil_: e.b().T} }

func (e *Exec) newErr(desc string, org *Term, path ...*Term) *ErrV {
	return &ErrV{nil_: e.b().F, desc: desc, org: org, path: path}
}

func (e *Exec) err(v Val) *ErrV {
	v = e.as(e.force1(v), types.Universe.Lookup("error").Type())
	if x, ok := v.(*ErrV); ok {
		return x
	}
	panic(unsupported("error value expected, found %s", showVal(v)))
}

// text is the string a Val denotes.
func (e *Exec) text(v Val) *Term {
	switch x := e.force1(v).(type) {
	case *Term:
		return x
	case *BorrowS:
		return x.t
	case *BytesV:
		return x.t
	case *B64S:
		return e.b().App("b64text", SStr, e.reify(x.src))
	}
	panic(unsupported("text expected, found %s", showVal(v)))
}

func (e *Exec) jtypeIs(v *Term, n int64) *Term {
	return e.b().Eq(e.b().App("jtype", SInt, v), e.b().Int(n))
}

const (
	jNull = iota
	jObject
	jArray
	jString
	jNumber
	jTrue
	jFalse
)

func (e *Exec) itoa(i *Term) *Term {
	if i.isInt() {
		return e.b().Str(i.val.String())
	}
	return e.b().App("itoa", SStr, i)
}

func (e *Exec) callFunc(o *types.Func, c *ast.CallExpr, args []Val) []Val {
	b := e.b()
	pkg := ""
	if o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	switch pkg + "." + o.Name() {
	case "fmt.Errorf":
		ev := e.newErr("fmt.Errorf", nil)
		if t, ok := e.force1(args[0]).(*Term); ok && t.op == "str" {
			ev.desc = t.name
			if strings.Contains(t.name, "%w") {
				for _, a := range args[1:] {
					if x, ok := e.force1(a).(*ErrV); ok {
						ev.org = x.org
						ev.wraps = x
					}
				}
			}
		}
		return []Val{ev}
	case "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return []Val{e.newErr("errors.New", nil)}
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
		x := e.err(args[0])
		if e.branch(x.nil_) {
			return []Val{e.noErr()}
		}
		return []Val{&ErrV{nil_: b.F, org: x.org, wraps: x, desc: "wrap"}}
	case "fmt.Sprintf":
		return []Val{e.sprintf(args)}
	case "fmt.Sprint":
		if len(args) == 1 {
			if t, ok := e.force1(args[0]).(*Term); ok && t.sort == SInt {
				return []Val{e.itoa(t)}
			}
			if t, ok := e.force1(args[0]).(*Term); ok && t.sort == SStr {
				return []Val{t}
			}
		}
		return []Val{e.fresh("text", SStr)}
	case "strconv.Itoa":
		return []Val{e.itoa(e.term(args[0]))}
	case "strconv.FormatInt", "strconv.FormatUint":
		if t := e.term(args[1]); t.isInt() && t.val.Int64() == 10 {
			return []Val{e.itoa(e.term(args[0]))}
		}
		return []Val{e.fresh("text", SStr)}
	case "bytes.Equal":
		return []Val{b.Eq(e.text(args[0]), e.text(args[1]))}
	case "time.Parse":
		l, s := e.term(args[0]), e.term(args[1])
		if e.branch(b.App("tparse_ok", SBool, l, s)) {
			return []Val{b.App("tparse", SU, l, s), e.noErr()}
		}
		return []Val{b.App("zero:time", SU), e.newErr("time.Parse", b.App("tperr", SU, s))}
	case "github.com/google/uuid.ParseBytes", "github.com/google/uuid.Parse":
		s := e.text(args[0])
		if e.branch(b.App("uuid_ok", SBool, s)) {
			return []Val{b.App("uuid_of", SU, s), e.noErr()}
		}
		return []Val{b.App("uuid_junk", SU, s), e.newErr("uuid", b.App("uuiderr", SU, s))}
	}
	// functions of the package under verification
	if o.Pkg() == e.fr().pkg || e.t.pkg != nil && o.Pkg() == e.t.pkg.types {
		if r, ok := e.helper(o.Name(), args, c); ok {
			return r
		}
		if fd := e.t.pkg.funcs[o.Name()]; fd != nil && fd.Body != nil {
			return e.callDecl(e.t.pkg, fd, nil, e.typed(args, o))
		}
	}
	panic(unsupported("function %s.%s", pkg, o.Name()))
}

func (e *Exec) typed(args []Val, o *types.Func) []Val {
	sig := o.Type().(*types.Signature)
	for i := range args {
		if i < sig.Params().Len() && !(sig.Variadic() && i >= sig.Params().Len()-1) {
			args[i] = e.as(args[i], sig.Params().At(i).Type())
		}
	}
	return args
}

func (e *Exec) sprintf(args []Val) Val {
	f, ok := e.force1(args[0]).(*Term)
	if ok && f.op == "str" {
		switch f.name {
		case "%d", "%v", "%s":
			switch t := e.force1(args[1]).(type) {
			case *Term:
				if t.sort == SInt {
					return e.itoa(t)
				}
				if t.sort == SStr && f.name != "%d" {
					return t
				}
			case *BytesV:
				if f.name == "%s" {
					return t.t
				}
			}
		}
	}
	return e.fresh("text", SStr)
}

// helper applies the contract of a function of the emitted support file. Each of these contracts is itself
// checked against the body of the function (see helpers.go).
func (e *Exec) helper(name string, args []Val, c *ast.CallExpr) ([]Val, bool) {
	if e.t.helperBody == name {
		return nil, false
	}
	b := e.b()
	switch name {
	case "newParsingError":
		p, x := e.text(args[0]), e.err(args[1])
		if e.branch(x.nil_) {
			return []Val{e.noErr()}, true
		}
		return []Val{&ErrV{nil_: b.F, path: append([]*Term{p}, x.path...), org: x.org, wraps: x.wraps, desc: x.desc, located: true}}, true
	case "valueIsNotNull":
		v := e.term(args[0])
		return []Val{b.And(b.Not(e.jnil(v)), b.Not(e.jtypeIs(v, jNull)))}, true
	case "parseDateTime", "parseDate":
		k := map[string]string{"parseDateTime": "dt", "parseDate": "date"}[name]
		s := e.term(args[0])
		if e.branch(b.App(k+"_ok", SBool, s)) {
			return []Val{b.App(k, SU, s), e.noErr()}, true
		}
		return []Val{b.App("zero:time", SU), e.newErr(name, b.App(k+"err", SU, s))}, true
	case "writeTime":
		w := e.writer(args[0], c.Pos())
		e.emit(w, Seg{kind: "time", t: e.term(args[1]), lay: e.term(args[2])})
		return nil, true
	case "unpackObject":
		x := e.err(args[1])
		if !e.branch(x.nil_) {
			return []Val{args[0], x}, true
		}
		by, ok := e.force(args[0]).(*BytesV)
		if !ok {
			panic(unsupported("unpackObject of %s", showVal(args[0])))
		}
		if by.t.op == "app" && strings.HasPrefix(by.t.name, "encj:") {
			// the encoding of a struct is an object text: what is between its braces
			return []Val{&BytesV{nil_: b.F, t: b.App("inner:"+by.t.name[5:], SStr, by.t.args...)}, e.noErr()}, true
		}
		panic(unsupported("unpackObject of %s", showVal(by)))
	}
	return nil, false
}

// ---------------------------------------------------------------- writer

func (e *Exec) writer(v Val, pos token.Pos) Loc {
	p, ok := e.force(v).(*PtrV)
	if !ok {
		panic(unsupported("writer expected, found %s", showVal(v)))
	}
	e.require(e.b().Not(p.nil_), "nil-writer", "panic", pos)
	return e.ptrLoc(p)
}

func (e *Exec) emit(l Loc, s Seg) {
	w, ok := e.load(l).(*WriterV)
	if !ok {
		panic(unsupported("writer expected"))
	}
	c := &WriterV{err: w.err, segs: append(append([]Seg(nil), w.segs...), s)}
	e.store(l, c)
}

func (e *Exec) rawText(v Val) Seg {
	switch x := e.force1(v).(type) {
	case *Term:
		if x.op == "str" {
			return Seg{kind: "const", s: x.name}
		}
		return Seg{kind: "raw", t: x}
	case *BorrowS:
		return Seg{kind: "raw", t: x.t}
	case *BytesV:
		if x.t.op == "str" {
			return Seg{kind: "const", s: x.t.name}
		}
		return Seg{kind: "raw", t: x.t}
	case *B64S:
		return Seg{kind: "raw64", v: x}
	}
	panic(unsupported("raw output of %s", showVal(v)))
}

func (e *Exec) writerMethod(name string, l Loc, args []Val, c *ast.CallExpr) []Val {
	b := e.b()
	switch name {
	case "RawByte":
		t := e.term(args[0])
		if t.isInt() {
			e.emit(l, Seg{kind: "const", s: string([]byte{byte(t.val.Int64())})})
		} else {
			e.emit(l, Seg{kind: "rawbyte", t: t})
		}
	case "RawString":
		e.emit(l, e.rawText(args[0]))
	case "String":
		switch x := e.force1(args[0]).(type) {
		case *B64S:
			e.emit(l, Seg{kind: "quote64", v: x})
		default:
			e.emit(l, Seg{kind: "quote", t: e.term(x)})
		}
	case "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64":
		e.emit(l, Seg{kind: "int", t: e.term(args[0])})
	case "Float32", "Float64":
		e.emit(l, Seg{kind: "float", t: e.term(args[0]), s: name[5:]})
	case "Bool":
		if e.branch(e.term(args[0])) {
			e.emit(l, Seg{kind: "const", s: "true"})
		} else {
			e.emit(l, Seg{kind: "const", s: "false"})
		}
	case "Base64Bytes":
		s := e.force(args[0])
		if e.branch(e.isNil(s)) {
			e.emit(l, Seg{kind: "const", s: "null"})
		} else {
			e.emit(l, Seg{kind: "quote64", v: &B64S{s}})
		}
	case "Raw":
		w := e.load(l).(*WriterV)
		x := e.err(args[1])
		if !e.branch(w.err.nil_) {
			return nil
		}
		if !e.branch(x.nil_) {
			e.store(l, &WriterV{segs: w.segs, err: x})
			return nil
		}
		by, ok := e.force(args[0]).(*BytesV)
		if !ok {
			panic(unsupported("Raw of %s", showVal(args[0])))
		}
		if e.branch(b.Eq(b.App("strlen", SInt, by.t), b.Int(0))) {
			e.emit(l, Seg{kind: "const", s: "null"})
		} else {
			e.emit(l, e.rawText(by))
		}
	case "BuildBytes":
		w := e.load(l).(*WriterV)
		if !e.branch(w.err.nil_) {
			return []Val{e.zeroVal(types.NewSlice(types.Typ[types.Byte])), w.err}
		}
		t := e.fresh("built", SStr)
		e.st.ghost["built:"+t.name] = w
		return []Val{&BytesV{nil_: b.F, t: t}, e.noErr()}
	case "Size":
		return []Val{e.fresh("size", SInt)}
	default:
		panic(unsupported("writer method %s", name))
	}
	return nil
}

// ---------------------------------------------------------------- methods

func (e *Exec) callMethod(f *ast.SelectorExpr, sel *types.Selection, c *ast.CallExpr, getArgs func() []Val) []Val {
	fn := sel.Obj().(*types.Func)
	sig := fn.Type().(*types.Signature)
	RT := sig.Recv().Type()
	ptrRecv := false
	base := RT
	if p, ok := RT.(*types.Pointer); ok {
		ptrRecv = true
		base = p.Elem()
	}
	name := fn.Name()
	pkg := ""
	if fn.Pkg() != nil {
		pkg = fn.Pkg().Path()
	}
	tn := ""
	if n := namedOf(base); n != nil {
		tn = n.Obj().Name()
	}
	if pkg == fjPath && tn == "ParserPool" {
		return e.poolMethod(name, f, c, getArgs)
	}
	if pkg == "encoding/base64" && tn == "Encoding" {
		enc := e.eval(f.X)
		if l, ok := enc.(*LibV); !ok || l.kind != "var:encoding/base64.StdEncoding" {
			panic(unsupported("base64 encoding other than StdEncoding"))
		}
		return e.base64Method(name, c, getArgs())
	}
	// the receiver
	var recv Val // pointer (ptrRecv) or value
	X := f.X
	XT := e.typeOf(X)
	idx := sel.Index()
	var loc *Loc
	var val Val
	if p, ok := under(XT).(*types.Pointer); ok {
		pv := e.force1(e.eval(X))
		if t, isT := pv.(*Term); isT && len(idx) == 1 { // *fastjson.Value
			if pkg == fjPath {
				return e.jvMethod(name, t, c, getArgs)
			}
		}
		if lv, isL := pv.(*LibV); isL {
			return e.libMethod(pkg, tn, name, lv, c, getArgs)
		}
		if ov, isO := pv.(*ObjV); isO {
			return e.objMethod(name, ov, c, getArgs)
		}
		if len(idx) == 1 && ptrRecv {
			recv = e.force(pv)
		} else {
			l := e.deref(pv, c.Pos())
			loc = &l
			XT = p.Elem()
		}
	} else if e.addressable(X) {
		l := e.addr(X)
		if w, ok := e.st.heap[l.obj].(*WriterV); ok && len(l.path) > 0 {
			_ = w
			return e.libMethod(pkg, tn, name, &LibV{kind: "wbuf", obj: l.obj}, c, getArgs)
		}
		loc = &l
	} else {
		val = e.force1(e.eval(X))
		if lv, isL := val.(*LibV); isL {
			return e.libMethod(pkg, tn, name, lv, c, getArgs)
		}
	}
	if recv == nil && loc != nil {
		l := *loc
		T := XT
		for _, i := range idx[:len(idx)-1] {
			if p, ok := under(T).(*types.Pointer); ok {
				l = e.deref(e.load(l), c.Pos())
				T = p.Elem()
			}
			l = l.add(Step{fld: i})
			T = under(T).(*types.Struct).Field(i).Type()
		}
		if p, ok := under(T).(*types.Pointer); ok && len(idx) > 1 {
			if ptrRecv {
				recv = e.force(e.load(l))
			} else {
				l = e.deref(e.load(l), c.Pos())
			}
			_ = p
		}
		if recv == nil {
			if ptrRecv {
				recv = &PtrV{nil_: e.b().F, obj: l.obj, path: l.path, elem: base}
			} else {
				val = e.load(l)
			}
		}
	} else if val != nil && len(idx) > 1 {
		T := XT
		for _, i := range idx[:len(idx)-1] {
			if p, ok := under(T).(*types.Pointer); ok {
				val = e.load(e.deref(val, c.Pos()))
				T = p.Elem()
			}
			val = e.loadAt(val, []Step{{fld: i}})
			T = under(T).(*types.Struct).Field(i).Type()
		}
	}
	if isErrorType(base) || pkg == "" && name == "Error" {
		return []Val{e.fresh("errtext", SStr)}
	}
	switch {
	case pkg == jwPath && tn == "Writer":
		return e.writerMethod(name, e.writer(recv, c.Pos()), getArgs(), c)
	case pkg == "time" || pkg == "github.com/google/uuid":
		if ptrRecv {
			panic(unsupported("method %s.%s", tn, name))
		}
		return e.leafMethod(pkg, name, e.term(val), c, getArgs)
	}
	switch name {
	case "FillFromJSON", "MarshalTo", "MarshalJSON", "UnmarshalJSON", "IsZero", "Reset", "validate":
		if ptrRecv {
			return e.contract(name, base, recv, nil, c, getArgs)
		}
		return e.contract(name, base, nil, val, c, getArgs)
	}
	if e.t.pkg != nil && fn.Pkg() == e.t.pkg.types {
		if fd := e.t.pkg.methods[tn+"."+name]; fd != nil && fd.Body != nil {
			rv := recv
			if !ptrRecv {
				rv = val
			}
			return e.callDecl(e.t.pkg, fd, rv, e.typed(getArgs(), fn))
		}
	}
	panic(unsupported("method %s.%s.%s", pkg, tn, name))
}

func (e *Exec) leafMethod(pkg, name string, t *Term, c *ast.CallExpr, getArgs func() []Val) []Val {
	b := e.b()
	if pkg == "time" {
		switch name {
		case "IsZero":
			if t.name == "zero:time" {
				return []Val{b.T}
			}
			return []Val{b.App("tzero", SBool, t)}
		case "Format":
			return []Val{b.App("tfmt", SStr, t, e.term(getArgs()[0]))}
		case "Equal":
			return []Val{b.App("tequal", SBool, t, e.term(getArgs()[0]))}
		case "MarshalText":
			if !e.branch(b.App("tmok", SBool, t)) {
				return []Val{&BytesV{nil_: b.T, t: b.Str("")}, e.newErr("MarshalText", b.App("tmerr", SU, t))}
			}
			return []Val{&BytesV{nil_: b.F, t: b.App("tfmt", SStr, t, b.Str(time.RFC3339Nano))}, e.noErr()}
		}
		panic(unsupported("method time.Time.%s", name))
	}
	switch name {
	case "MarshalText":
		return []Val{&BytesV{nil_: b.F, t: b.App("uuidtext", SStr, t)}, e.noErr()}
	case "String":
		return []Val{b.App("uuidtext", SStr, t)}
	}
	panic(unsupported("method uuid.UUID.%s", name))
}

func (e *Exec) libMethod(pkg, tn, name string, l *LibV, c *ast.CallExpr, getArgs func() []Val) []Val {
	b := e.b()
	switch {
	case l.kind == "wbuf" && name == "AppendBytes":
		e.emit(Loc{obj: l.obj}, e.rawText(getArgs()[0]))
		return nil
	case l.kind == "wbuf" && name == "AppendString":
		e.emit(Loc{obj: l.obj}, e.rawText(getArgs()[0]))
		return nil
	case l.kind == "wbuf" && name == "AppendByte":
		return e.writerMethod("RawByte", Loc{obj: l.obj}, getArgs(), c)
	case l.kind == "parser" && (name == "ParseBytes" || name == "Parse"):
		args := getArgs()
		e.event("parse")
		s := e.text(args[0])
		v := b.App("parsed", SJV, s)
		if e.branch(b.App("parse_ok", SBool, s)) {
			e.assume(b.Not(e.jnil(v)))
			return []Val{v, e.noErr()}
		}
		return []Val{b.App("jv:nil", SJV), e.newErr("parse", b.App("perr", SU, s))}
	case strings.HasPrefix(l.kind, "var:") && pkg == "encoding/base64":
		return e.base64Method(name, c, getArgs())
	}
	panic(unsupported("method %s.%s.%s of %s", pkg, tn, name, l.kind))
}

func (e *Exec) event(s string) { e.st.events = append(e.st.events, s) }

func (e *Exec) poolMethod(name string, f *ast.SelectorExpr, c *ast.CallExpr, getArgs func() []Val) []Val {
	switch name {
	case "Get":
		e.event("get")
		return []Val{&LibV{kind: "parser"}}
	case "Put":
		a := e.force1(getArgs()[0])
		if l, ok := a.(*LibV); !ok || l.kind != "parser" {
			panic(unsupported("Put of %s", showVal(a)))
		}
		e.event("put")
		return nil
	}
	panic(unsupported("ParserPool.%s", name))
}

func (e *Exec) base64Method(name string, c *ast.CallExpr, args []Val) []Val {
	b := e.b()
	switch name {
	case "DecodedLen":
		return []Val{b.App("b64dl", SInt, e.term(args[0]))}
	case "EncodedLen":
		return []Val{b.App("b64el", SInt, e.term(args[0]))}
	case "EncodeToString":
		return []Val{&B64S{e.force(args[0])}}
	case "DecodeString":
		s := e.text(args[0])
		if e.branch(b.App("b64ok", SBool, s)) {
			n := b.App("b64n", SInt, s)
			return []Val{&SliceV{nil_: b.F, len: n, cap: n, off: b.Int(0), elem: types.Typ[types.Byte], arr: e.alloc(&Seq{n: n, elem: types.Typ[types.Byte], org: b.App("b64bytes", SU, s)})}, e.noErr()}
		}
		return []Val{e.zeroVal(types.NewSlice(types.Typ[types.Byte])), e.newErr("base64", b.App("b64err", SU, s))}
	case "Decode":
		if by, ok := e.force1(args[0]).(*BytesV); ok && by.borrowed {
			e.obligation("the document is left as it was", "alias", false, "base64 is decoded into the memory of the parser", c.Pos())
			e.kill()
		}
		d := e.slice(args[0])
		s := e.text(args[1])
		dev := ""
		if d.len.isInt() {
			dev = "long-base64-panics"
		}
		e.requireDev(b.Le(b.App("b64w", SInt, s), d.len), "base64 text fits the destination", "panic", dev, c.Pos())
		n := b.App("b64n", SInt, s)
		if d.arr == 0 {
			panic(unsupported("base64 into a closed slice"))
		}
		old := e.seqOf(d)
		off := d.off
		if !e.branch(b.App("b64ok", SBool, s)) {
			junk := e.fresh("b64junk", SU)
			e.store(Loc{d.arr, d.apath}, &Seq{n: old.n, elem: old.elem, org: junk})
			return []Val{e.fresh("n", SInt), e.newErr("base64", b.App("b64err", SU, s))}
		}
		e.store(Loc{d.arr, d.apath}, &Seq{n: old.n, elem: old.elem, spl: &seqSplit{lo: off, hi: b.Add(off, n), a: &Seq{n: n, elem: old.elem, org: b.App("b64bytes", SU, s)}, b: old}})
		return []Val{n, e.noErr()}
	case "Encode":
		d := e.slice(args[0])
		src := e.force(args[1])
		sl := e.slice(src)
		n := b.App("b64el", SInt, sl.len)
		e.require(b.Le(n, d.len), "base64 destination large enough", "panic", c.Pos())
		old := e.seqOf(d)
		if !(d.off.isInt() && d.off.val.Sign() == 0) || d.arr == 0 {
			panic(unsupported("base64 encode into part of an array"))
		}
		e.store(Loc{d.arr, d.apath}, &Seq{n: old.n, elem: old.elem, b64e: &b64enc{e.closeVal(src, 0), n}})
		return nil
	}
	panic(unsupported("base64.%s", name))
}

func (e *Exec) jvMethod(name string, v *Term, c *ast.CallExpr, getArgs func() []Val) []Val {
	b := e.b()
	if name == "Get" {
		args := getArgs()
		e.require(b.Not(e.jnil(v)), "nil json value", "panic", c.Pos())
		r := v
		for i, a := range args {
			if i > 0 {
				// Get of a path yields nil as soon as one of its steps does
				if e.branch(e.jnil(r)) {
					break
				}
			}
			r = b.App("jget", SJV, r, e.term(a))
		}
		return []Val{r}
	}
	if name == "Exists" {
		args := getArgs()
		return []Val{b.Not(e.jnil(b.App("jget", SJV, v, e.term(args[0]))))}
	}
	e.require(b.Not(e.jnil(v)), "nil json value", "panic", c.Pos())
	fail := func() *ErrV { return e.newErr(name, b.App("jerr", SU, v)) }
	switch name {
	case "Type":
		return []Val{b.App("jtype", SInt, v)}
	case "Object":
		if e.branch(e.jtypeIs(v, jObject)) {
			return []Val{&ObjV{v}, e.noErr()}
		}
		return []Val{&ObjV{b.App("jv:nil", SJV)}, fail()}
	case "Array":
		T := types.NewPointer(c_valueType(e, c))
		if e.branch(e.jtypeIs(v, jArray)) {
			n := b.App("jlen", SInt, v)
			return []Val{&SliceV{nil_: b.F, len: n, cap: n, off: b.Int(0), elem: T, seq: &Seq{n: n, elem: T, jv: v}}, e.noErr()}
		}
		return []Val{&SliceV{nil_: b.T, len: b.Int(0), cap: b.Int(0), off: b.Int(0), elem: T, seq: &Seq{n: b.Int(0), elem: T, zero: true}}, fail()}
	case "StringBytes":
		if e.branch(e.jtypeIs(v, jString)) {
			return []Val{&BytesV{nil_: b.F, t: b.App("jstr", SStr, v), borrowed: true}, e.noErr()}
		}
		return []Val{&BytesV{nil_: b.T, t: b.Str("")}, fail()}
	case "Bool":
		if e.branch(e.jtypeIs(v, jTrue)) {
			return []Val{b.T, e.noErr()}
		}
		if e.branch(e.jtypeIs(v, jFalse)) {
			return []Val{b.F, e.noErr()}
		}
		return []Val{b.F, fail()}
	case "Int", "Int64":
		if e.branch(b.App("jint_ok", SBool, v)) {
			return []Val{b.App("jint", SInt, v), e.noErr()}
		}
		return []Val{b.Int(0), fail()}
	case "Uint", "Uint64":
		if e.branch(b.App("juint_ok", SBool, v)) {
			return []Val{b.App("juint", SInt, v), e.noErr()}
		}
		return []Val{b.Int(0), fail()}
	case "Float64":
		if e.branch(b.App("jflt_ok", SBool, v)) {
			return []Val{b.App("jflt", SF64, v), e.noErr()}
		}
		return []Val{e.floatConst(0, SF64), fail()}
	}
	panic(unsupported("fastjson.Value.%s", name))
}

// c_valueType is the element type fastjson.Value.
func c_valueType(e *Exec, c *ast.CallExpr) types.Type {
	if tup, ok := e.info().Types[c].Type.(*types.Tuple); ok {
		if s, ok := tup.At(0).Type().(*types.Slice); ok {
			if p, ok := s.Elem().(*types.Pointer); ok {
				return p.Elem()
			}
		}
	}
	return types.Typ[types.Int]
}

func (e *Exec) objMethod(name string, o *ObjV, c *ast.CallExpr, getArgs func() []Val) []Val {
	b := e.b()
	e.require(b.Not(e.jnil(o.v)), "nil json object", "panic", c.Pos())
	switch name {
	case "Len":
		return []Val{b.App("jolen", SInt, o.v)}
	case "Get":
		return []Val{b.App("jget", SJV, o.v, e.term(getArgs()[0]))}
	case "Visit":
		fv, ok := e.eval(c.Args[0]).(*FuncV)
		if !ok {
			panic(unsupported("Visit with a non-literal function"))
		}
		e.visit(o.v, fv.lit, c)
		return nil
	}
	panic(unsupported("fastjson.Object.%s", name))
}

// ---------------------------------------------------------------- contracts of generated methods

// contract applies the contract of a generated (or user-written) codec method of type T.
func (e *Exec) contract(name string, T types.Type, ptr Val, val Val, c *ast.CallExpr, getArgs func() []Val) []Val {
	b := e.b()
	tk := typeKey(T)
	switch name {
	case "FillFromJSON":
		l := e.deref(ptr, c.Pos())
		v := e.term(getArgs()[0])
		e.require(b.Not(e.jnil(v)), "nil json value", "panic", c.Pos())
		e.event("use")
		old := e.reifyT(e.load(l), T)
		if e.branch(b.App("ok:"+tk, SBool, v)) {
			e.store(l, e.t.symbol("fill:"+tk, T, old, v))
			return []Val{e.noErr()}
		}
		e.nfresh++
		e.store(l, e.t.symbol(fmt.Sprintf("partial#%s%d", e.trace(), e.nfresh), T, append([]*Term{v}, e.loopIdx...)...))
		return []Val{e.newErr("FillFromJSON", b.App("fillerr:"+tk, SU, v))}
	case "UnmarshalJSON":
		l := e.deref(ptr, c.Pos())
		s := e.text(getArgs()[0])
		e.nfresh++
		e.store(l, e.t.symbol(fmt.Sprintf("unm#%s%d", e.trace(), e.nfresh), T))
		if e.branch(b.App("uok:"+tk, SBool, s)) {
			return []Val{e.noErr()}
		}
		return []Val{e.newErr("UnmarshalJSON", nil)}
	case "validate":
		v := e.term(getArgs()[0])
		e.require(b.Not(e.jnil(v)), "nil json value", "panic", c.Pos())
		if e.branch(b.App("valid:"+tk, SBool, v)) {
			e.assume(e.jtypeIs(v, jObject))
			return []Val{e.noErr()}
		}
		return []Val{e.newErr("validate", b.App("valerr:"+tk, SU, v))}
	case "MarshalTo":
		w := e.writer(getArgs()[0], c.Pos())
		var x Val
		if ptr != nil {
			p := e.force(ptr).(*PtrV)
			if e.branch(p.nil_) {
				e.emit(w, Seg{kind: "const", s: "null"})
				return []Val{e.noErr()}
			}
			x = e.load(e.ptrLoc(p))
		} else {
			x = val
		}
		wv := e.load(w).(*WriterV)
		if !e.branch(wv.err.nil_) {
			// a recorded failure: the nested encoder may or may not report it again
			if e.choose(2) == 0 {
				return []Val{wv.err}
			}
			return []Val{e.noErr()}
		}
		r := e.reifyT(x, T)
		if e.branch(b.App("encok:"+tk, SBool, r)) {
			e.emit(w, Seg{kind: "enc", v: e.closeVal(x, 0), T: T})
			return []Val{e.noErr()}
		}
		e.emit(w, Seg{kind: "opaque", s: "partial output"})
		return []Val{e.newErr("MarshalTo", b.App("encerr:"+tk, SU, r))}
	case "MarshalJSON":
		var x Val
		if ptr != nil {
			p := e.force(ptr).(*PtrV)
			if e.branch(p.nil_) {
				return []Val{&BytesV{nil_: b.F, t: b.Str("null")}, e.noErr()}
			}
			x = e.load(e.ptrLoc(p))
		} else {
			x = val
		}
		r := e.reifyT(x, T)
		if e.branch(b.App("encok:"+tk, SBool, r)) {
			return []Val{&BytesV{nil_: b.F, t: b.App("encj:"+tk, SStr, r)}, e.noErr()}
		}
		return []Val{&BytesV{nil_: b.T, t: b.Str("")}, e.newErr("MarshalJSON", b.App("encerr:"+tk, SU, r))}
	case "IsZero":
		if ptr != nil {
			val = e.load(e.deref(ptr, c.Pos()))
		}
		if _, ok := genCodec(T); ok {
			return []Val{e.noElems(T, val)}
		}
		return []Val{b.App("empty:"+tk, SBool, e.reifyT(val, T))}
	case "Reset":
		var l Loc
		if ptr == nil {
			// value receiver: a map is reset in place
			if m, ok := e.force(val).(*MapV); ok && m.obj != 0 {
				mc := e.mapC(m)
				e.st.heap[m.obj] = &MapC{org: mc.org, ops: append(append([]MapOp(nil), mc.ops...), MapOp{kind: "reset", k: b.Str(tk)})}
				return nil
			}
			panic(unsupported("Reset of a value"))
		}
		l = e.deref(ptr, c.Pos())
		old := e.reifyT(e.load(l), T)
		e.store(l, e.t.symbol("reset:"+tk, T, old))
		return nil
	}
	panic(unsupported("contract %s", name))
}

// reify names a value by a term.
func (e *Exec) reify(v Val) *Term { return e.reifyT(v, nil) }

func (e *Exec) reifyT(v Val, T types.Type) *Term {
	b := e.b()
	switch x := e.force1(v).(type) {
	case *Term:
		return x
	case *BorrowS:
		return x.t
	case *Opq:
		return x.t
	case *BytesV:
		return b.App("bytes", SU, x.t)
	case *StructV:
		var src *Term
		same, zero := true, true
		st, _ := under(x.T).(*types.Struct)
		var as []*Term
		for i, f := range x.f {
			t := e.reifyT(f, st.Field(i).Type())
			as = append(as, t)
			if t.op == "app" && len(t.args) == 1 && strings.HasSuffix(t.name, "f."+st.Field(i).Name()) && (src == nil || src == t.args[0]) {
				src = t.args[0]
			} else {
				same = false
			}
			if !isZeroTerm(t) {
				zero = false
			}
		}
		if same && src != nil {
			return src
		}
		if zero {
			return b.App("zero", SU)
		}
		return b.App("mk:"+typeKey(x.T), SU, as...)
	case *PtrV:
		if x.nil_.isTrue() {
			return b.App("zero", SU)
		}
		if x.org != nil {
			if o, ok := e.st.lazy["ptr:"+x.org.key]; !ok || e.unchangedDeref(x, o) {
				return x.org
			}
		}
		if x.obj != 0 {
			return b.App("ref", SU, e.reifyT(e.load(e.ptrLoc(x)), x.elem))
		}
		if x.box != nil {
			return b.App("ref", SU, e.reifyT(x.box, x.elem))
		}
	case *SliceV:
		if x.nil_.isTrue() {
			return b.App("zero", SU)
		}
		if x.org != nil && x.len == b.App("len", SInt, x.org) {
			sq := e.seqOf(x)
			if sq.org == x.org && len(sq.over) == 0 {
				return x.org
			}
		}
	case *Seq:
		if x.org != nil && len(x.over) == 0 {
			return x.org
		}
		if isZeroSeq(x) {
			return b.App("zero", SU)
		}
	case *MapV:
		if x.nil_.isTrue() {
			return b.App("zero", SU)
		}
		mc := e.mapC(x)
		if x.org != nil && mc.org == x.org && len(mc.ops) == 0 {
			return x.org
		}
	case *LibV:
		if x.kind == "nil" {
			return b.App("zero", SU)
		}
	}
	return e.fresh("value", SU)
}

func (e *Exec) unchangedDeref(p *PtrV, obj int) bool {
	v := e.st.heap[obj]
	w := e.t.proj(p.org, "deref", p.elem)
	return e.reifyIs(v, w)
}

func (e *Exec) reifyIs(v, w Val) bool {
	switch x := w.(type) {
	case *Term:
		return v == Val(x)
	case *Opq:
		if o, ok := v.(*Opq); ok {
			return o.t == x.t
		}
		if s, ok := v.(*StructV); ok {
			return e.reifyT(s, x.T) == x.t
		}
	}
	return false
}

func isZeroTerm(t *Term) bool {
	switch t.op {
	case "false":
		return true
	case "int":
		return t.val.Sign() == 0
	case "str":
		return t.name == ""
	case "fconst":
		return strings.Contains(t.name, "#x0000000000000000") || strings.HasSuffix(t.name, "#x00000000)")
	case "app":
		return t.name == "zero" || t.name == "zero:time" || t.name == "zero:uuid"
	}
	return false
}

var _ = constant.MakeInt64
