package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// The functions of the support file (valyjson_utils.go) are under contract as well: callers use the contracts in
// lib.go (helper), and the bodies are checked here against those contracts. The bodies are pure string, error and
// time code, which this small executor covers: texts are symbolic terms, errors are values with a text, lists are
// concrete. Branches fork through Exec.branch.

type (
	hErr struct { // an error made outside the package: opaque, with a text
		name    string
		located bool // has a WrapPath method (it comes from a package with its own support file)
		path    *Term
		inner   Val // for wrapped errors
		text    *Term
	}
	hNil   struct{}
	hList  struct{ el []Val }
	hCell  struct{ v Val }
	hFn    struct{ lit *ast.FuncLit }
	hTuple struct{ v []Val }
	// hArr is a local array of bytes that has not been used; hBuf a text that is being built
	hArr struct {
		n    int64
		used bool
	}
	hBuf struct{ t *Term }
	hWr  struct{ out *hCell } // the writer: *Term of the output so far
)

type hx struct {
	*Exec
	env  []map[types.Object]*hCell
	ret  []Val
	ctl  ctl
	deep int
	glob map[types.Object]Val
	cur  *types.Signature
}

// helperProps: which properties depend on each function of the support file.
var helperProps = map[string][]string{
	"valueIsNotNull":  {"C01", "C03", "C05", "C16", "C17"},
	"parseDateTime":   {"C18", "C01"},
	"writeTime":       {"C18", "C07", "C08"},
	"newParsingError": {"C06", "C19"},
	"unpackObject":    {"C14", "C07"},
}

var helperNames = []string{"newParsingError", "parseDateTime", "unpackObject", "valueIsNotNull", "writeTime"}

var helperFails = map[string]map[string][]string{
	"valueIsNotNull":  {"": {"C01", "C03", "C05"}},
	"parseDateTime":   {"": {"C18", "C01"}, "panic": {"C18", "C03"}},
	"writeTime":       {"": {"C18", "C07", "C08"}},
	"newParsingError": {"": {"C06"}, "foreign": {"C06", "C19"}, "panic": {"C06", "C03"}},
	"unpackObject":    {"": {"C14", "C07"}},
}

func (t *Task) verifyHelper(name string) {
	fd := t.pkg.funcs[name]
	if fd == nil || fd.Body == nil {
		panic(unsupported("no function %s", name))
	}
	t.fn, t.method, t.helperBody = fd, name, name
	b := t.b
	run := func(what string, f func(h *hx)) {
		for range t.explore(newState(), nil, func(e *Exec) {
			e.frames = append(e.frames, &frame{info: t.pkg.info, pkg: t.pkg.types})
			h := &hx{Exec: e, glob: map[types.Object]Val{}}
			f(h)
		}) {
		}
	}
	check := func(h *hx, name, kind string, ok bool, detail string) {
		h.obligation(name, kind, ok, detail, fd.Pos())
	}
	str := func(n string) *Term { return b.App(n, SStr) }
	switch name {
	case "valueIsNotNull":
		run("", func(h *hx) {
			v := b.App("v", SJV)
			r := h.call1(fd, v)
			x, ok := r[0].(*Term)
			if !ok {
				panic(unsupported("result of %s", name))
			}
			want := b.And(b.Not(h.jnil(v)), b.Not(h.jtypeIs(v, jNull)))
			check(h, "true exactly for a value that is there and not null", "", h.prove(b.Eq(x, want)), "result: "+x.String())
		})
	case "parseDateTime":
		run("", func(h *hx) {
			s := str("s")
			r := h.call1(fd, s)
			oks, vals := dateTimeForms(b, s)
			if h.isNilErr(r[1]) {
				v, _ := r[0].(*Term)
				good := b.F
				for i := range oks {
					if v != nil {
						good = b.Or(good, b.And(oks[i], b.Eq(v, vals[i])))
					}
				}
				check(h, "a successful result is the time the text denotes", "", h.prove(good), "result: "+showVal(r[0]))
				return
			}
			for i, k := range oks {
				check(h, fmt.Sprintf("form %d is accepted", i), "", h.prove(b.Not(k)), "a text of the form "+dateTimeLayouts[i]+" is refused")
			}
		})
	case "writeTime":
		run("", func(h *hx) {
			w := &hWr{&hCell{b.Str("")}}
			t0, lay := b.App("t", SU), str("layout")
			h.call1(fd, w, t0, lay)
			got := h.norm(w.out.v.(*Term))
			ft := b.App("tfmt", SStr, t0, lay)
			q := h.norm(h.concat(h.concat(b.Str(`"`), ft), b.Str(`"`)))
			check(h, "writes the formatted time between quotes", "", got == q || got == b.App("quoteof", SStr, ft), "written: "+got.String())
		})
	case "unpackObject":
		data, ert := str("data"), str("err")
		run("", func(h *hx) {
			r := h.call1(fd, &BytesV{nil_: b.F, t: data}, &hErr{name: "err", text: ert})
			check(h, "a failure is passed on", "", !h.isNilErr(r[1]), "no error")
		})
		run("", func(h *hx) {
			n := b.App("strlen", SInt, data)
			h.assume(b.Le(b.Int(2), n))
			h.assume(b.Eq(b.App("charat", SInt, data, b.Int(0)), b.Int('{')))
			h.assume(b.Eq(b.App("charat", SInt, data, b.Sub(n, b.Int(1))), b.Int('}')))
			r := h.call1(fd, &BytesV{nil_: b.F, t: data}, hNil{})
			check(h, "an object is accepted", "", h.isNilErr(r[1]), "error: "+showVal(r[1]))
			by, ok := r[0].(*BytesV)
			good := ok && by.t.op == "app" && by.t.name == "substr" && by.t.args[0] == data &&
				h.prove(b.Eq(by.t.args[1], b.Int(1))) && h.prove(b.Eq(by.t.args[2], b.Sub(n, b.Int(1))))
			check(h, "the result is what is between the braces", "", good, "result: "+showVal(r[0]))
		})
		run("", func(h *hx) {
			// something that is neither an object nor empty
			n := b.App("strlen", SInt, data)
			h.assume(b.Le(b.Int(2), n))
			h.assume(b.Or(b.Not(b.Eq(b.App("charat", SInt, data, b.Int(0)), b.Int('{'))), b.Not(b.Eq(b.App("charat", SInt, data, b.Sub(n, b.Int(1))), b.Int('}')))))
			r := h.call1(fd, &BytesV{nil_: b.F, t: data}, hNil{})
			check(h, "what is not an object is refused", "", !h.isNilErr(r[1]), "no error")
		})
	case "newParsingError":
		p, q := str("p"), str("q")
		located := func(h *hx, v Val, path *Term, cause *Term) bool {
			if h.isNilErr(v) {
				return false
			}
			tx := h.norm(h.errText(v))
			parts := catParts(tx)
			for i := range parts {
				// … path … cause …, the path delimited by constant text
				if i > 0 && parts[i-1].op != "str" {
					continue
				}
				rest := parts[i:]
				pp := catParts(h.norm(path))
				if len(rest) <= len(pp) || !samePrefix(rest, pp) {
					continue
				}
				after := rest[len(pp):]
				if after[0].op != "str" || strings.HasPrefix(after[0].name, ".") {
					continue
				}
				for _, x := range after[1:] {
					if x == cause {
						return true
					}
				}
			}
			return false
		}
		run("", func(h *hx) {
			r := h.call1(fd, p, hNil{})
			check(h, "no failure, no error", "", h.isNilErr(r[0]), "result: "+showVal(r[0]))
		})
		run("", func(h *hx) {
			ct := str("cause")
			r := h.call1(fd, p, &hErr{name: "cause", text: ct})
			check(h, "a failure without location gets the location", "", located(h, r[0], p, ct), "error text: "+h.errTextS(r[0]))
			r2 := h.call1(fd, q, r[0])
			qp := h.concat(h.concat(q, b.Str(".")), p)
			check(h, "the outer element comes before the inner path", "", located(h, r2[0], qp, ct), "error text: "+h.errTextS(r2[0]))
			// a located failure is the same whichever way its path came about: paths of any length follow by induction
			r3 := h.call1(fd, h.norm(qp), &hErr{name: "cause", text: ct})
			check(h, "locating twice is locating once with the joined path", "", h.errText(r2[0]) == h.errText(r3[0]) && sameH(h, r2[0], r3[0]), "one: "+h.errTextS(r2[0])+"; other: "+h.errTextS(r3[0]))
		})
		run("", func(h *hx) {
			ct := str("cause")
			f := &hErr{name: "foreign", located: true, path: p, text: h.norm(h.concat(h.concat(b.Str("at "), p), h.concat(b.Str(": "), ct)))}
			r := h.call1(fd, q, f)
			g, ok := r[0].(*hErr)
			good := ok && g.located && h.norm(g.path) == h.norm(h.concat(h.concat(q, b.Str(".")), p))
			check(h, "a failure located by another package is extended, not nested", "foreign", good, "error text: "+h.errTextS(r[0]))
		})
	default:
		panic(unsupported("no contract for %s", name))
	}
}

func samePrefix(a, p []*Term) bool {
	for i := range p {
		if a[i] == p[i] {
			continue
		}
		// the last part may run into the constant that follows
		return false
	}
	return true
}

// sameH: the two error values are equal, member by member.
func sameH(h *hx, a, b Val) bool {
	switch x := a.(type) {
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) || !types.Identical(x.T, y.T) {
			return false
		}
		for i := range x.f {
			if !sameH(h, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *hCell:
		y, ok := b.(*hCell)
		return ok && sameH(h, x.v, y.v)
	case *Term:
		y, ok := b.(*Term)
		if ok && x.sort == SStr && y.sort == SStr {
			return h.norm(x) == h.norm(y)
		}
		return a == b
	case *hErr:
		y, ok := b.(*hErr)
		return ok && (x == y || x.name == y.name && x.text == y.text && x.located == y.located && x.path == y.path && (x.inner == nil) == (y.inner == nil) && (x.inner == nil || sameH(h, x.inner, y.inner)))
	case *hList:
		y, ok := b.(*hList)
		if !ok || len(x.el) != len(y.el) {
			return false
		}
		for i := range x.el {
			if !sameH(h, x.el[i], y.el[i]) {
				return false
			}
		}
		return true
	case hNil:
		_, ok := b.(hNil)
		return ok
	}
	return a == b
}

// dateTimeLayouts: the documented forms of a time without a layout tag.
var dateTimeLayouts = []string{"2006-01-02T15:04:05Z07:00", "2006-01-02 15:04:05Z07:00", "02.01.2006 15:04:05Z07:00"}

// RFC3339Nano and RFC3339 denote the same set of texts for time.Parse: a fraction is accepted, and optional, in both.
func parseLayout(l string) string {
	if l == "2006-01-02T15:04:05.999999999Z07:00" {
		return dateTimeLayouts[0]
	}
	return l
}

func dateTimeForms(b *Bank, s *Term) (oks, vals []*Term) {
	for _, l := range dateTimeLayouts {
		oks = append(oks, b.App("tparse_ok", SBool, b.Str(l), s))
		vals = append(vals, b.App("tparse", SU, b.Str(l), s))
	}
	return
}

// ---------------------------------------------------------------- texts

func catParts(t *Term) []*Term {
	if t.op == "app" && t.name == "cat" {
		return append(append([]*Term{}, catParts(t.args[0])...), catParts(t.args[1])...)
	}
	return []*Term{t}
}

// norm makes concatenation right-associative with adjacent constants merged.
func (h *hx) norm(t *Term) *Term {
	var ps []*Term
	for _, p := range catParts(t) {
		if p.op == "str" {
			if p.name == "" {
				continue
			}
			if n := len(ps); n > 0 && ps[n-1].op == "str" {
				ps[n-1] = h.b().Str(ps[n-1].name + p.name)
				continue
			}
		}
		ps = append(ps, p)
	}
	if len(ps) == 0 {
		return h.b().Str("")
	}
	r := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		r = h.b().App("cat", SStr, ps[i], r)
	}
	return r
}

func (h *hx) cat(ts ...*Term) *Term {
	r := h.b().Str("")
	for _, t := range ts {
		r = h.concat(r, t)
	}
	return h.norm(r)
}

func (h *hx) errTextS(v Val) string {
	if h.isNilErr(v) {
		return "<nil>"
	}
	return h.norm(h.errText(v)).String()
}

func (h *hx) isNilErr(v Val) bool {
	_, ok := v.(hNil)
	return ok
}

func (h *hx) errText(v Val) *Term {
	switch x := v.(type) {
	case *hErr:
		return x.text
	case *StructV, *hCell:
		r := h.method(x, "Error", nil, token.NoPos)
		t, ok := r[0].(*Term)
		if !ok {
			panic(unsupported("error text"))
		}
		return h.norm(t)
	}
	panic(unsupported("text of %s", showVal(v)))
}

func (h *hx) str(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		if x.sort == SStr {
			return x
		}
	case *BytesV:
		return x.t
	}
	panic(unsupported("text expected, found %s", showVal(v)))
}

func (h *hx) tm(v Val) *Term {
	if x, ok := v.(*Term); ok {
		return x
	}
	panic(unsupported("scalar expected, found %s", showVal(v)))
}

func (h *hx) format(f string, args []Val) *Term {
	b := h.b()
	r := b.Str("")
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = h.cat(r, b.Str(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) {
			panic(unsupported("format %q", f))
		}
		if f[i] == '%' {
			r = h.cat(r, b.Str("%"))
			continue
		}
		if k >= len(args) {
			panic(unsupported("format %q", f))
		}
		a := args[k]
		k++
		var t *Term
		switch x := a.(type) {
		case *Term:
			switch {
			case x.sort == SStr:
				t = x
			case x.sort == SInt:
				t = h.itoa(x)
			default:
				panic(unsupported("formatting %s", showVal(a)))
			}
		case *BytesV:
			if f[i] != 's' {
				panic(unsupported("format %q", f))
			}
			t = x.t
		case *hErr, *StructV, *hCell:
			t = h.errText(x)
		default:
			panic(unsupported("formatting %s", showVal(a)))
		}
		switch f[i] {
		case 's', 'v', 'w', 'd':
		case 'q':
			t = h.b().App("quoteof", SStr, t)
		default:
			panic(unsupported("format %q", f))
		}
		r = h.cat(r, t)
	}
	if k != len(args) {
		panic(unsupported("format %q", f))
	}
	return r
}

// ---------------------------------------------------------------- execution

func (h *hx) call1(fd *ast.FuncDecl, args ...Val) []Val {
	return h.invoke(fd.Type, fd.Body, nil, nil, args)
}

func (h *hx) invoke(ft *ast.FuncType, body *ast.BlockStmt, recv *ast.Ident, rv Val, args []Val) []Val {
	if h.deep++; h.deep > 40 {
		panic(unsupported("recursion"))
	}
	frame := map[types.Object]*hCell{}
	save, saveRet, saveCtl := h.env, h.ret, h.ctl
	h.env = append(append([]map[types.Object]*hCell{}, h.env...), frame)
	h.ret, h.ctl = nil, cNormal
	info := h.t.pkg.info
	if recv != nil {
		if o := info.Defs[recv]; o != nil {
			frame[o] = &hCell{rv}
		}
	}
	i := 0
	for _, f := range ft.Params.List {
		if _, ok := f.Type.(*ast.Ellipsis); ok && len(f.Names) == 1 {
			l, packed := (*hList)(nil), false
			if i == len(args)-1 {
				l, packed = args[i].(*hList)
			}
			if !packed {
				l = &hList{append([]Val{}, args[i:]...)}
			}
			args = append(append([]Val{}, args[:i]...), l)
		}
		if len(f.Names) == 0 {
			i++
		}
		for _, n := range f.Names {
			if i >= len(args) {
				panic(unsupported("variadic call"))
			}
			if o := info.Defs[n]; o != nil {
				frame[o] = &hCell{args[i]}
			}
			i++
		}
	}
	var results []*hCell
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, n := range f.Names {
				o := info.Defs[n]
				c := &hCell{h.zero(info.Types[f.Type].Type)}
				if o != nil {
					frame[o] = c
				}
				results = append(results, c)
			}
		}
	}
	h.stmts(body.List)
	r := h.ret
	if h.ctl == cReturn && r == nil || h.ctl != cReturn {
		r = nil
		for _, c := range results {
			r = append(r, c.v)
		}
	}
	h.env, h.ret, h.ctl = save, saveRet, saveCtl
	h.deep--
	return r
}

func (h *hx) zero(T types.Type) Val {
	b := h.b()
	switch u := under(T).(type) {
	case *types.Basic:
		if s, ok := scalarSort(T); ok {
			switch s {
			case SStr:
				return b.Str("")
			case SInt:
				return b.Int(0)
			case SBool:
				return b.F
			}
		}
	case *types.Struct:
		if timeLike(T) {
			return b.App("zero:time", SU)
		}
		if typeIs(T, "strings", "Builder") || typeIs(T, "bytes", "Buffer") {
			return &hBuf{b.Str("")}
		}
		s := &StructV{T: T}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, h.zero(u.Field(i).Type()))
		}
		return s
	case *types.Slice:
		if isByte(u.Elem()) {
			return &BytesV{nil_: b.T, t: b.Str("")}
		}
		return &hList{}
	case *types.Array:
		if isByte(u.Elem()) {
			return &hArr{n: u.Len()}
		}
	case *types.Interface, *types.Pointer, *types.Signature:
		return hNil{}
	}
	panic(unsupported("zero value of %s", T))
}

func isByte(T types.Type) bool {
	bt, ok := under(T).(*types.Basic)
	return ok && bt.Kind() == types.Uint8
}

func (h *hx) cell(o types.Object) *hCell {
	for i := len(h.env) - 1; i >= 0; i-- {
		if c := h.env[i][o]; c != nil {
			return c
		}
	}
	return nil
}

func (h *hx) stmts(l []ast.Stmt) {
	for _, s := range l {
		h.stmt(s)
		if h.ctl != cNormal {
			return
		}
	}
}

func (h *hx) define(x ast.Expr, v Val) {
	id, ok := x.(*ast.Ident)
	if !ok {
		panic(unsupported("declaration"))
	}
	if id.Name == "_" {
		return
	}
	if o := h.t.pkg.info.Defs[id]; o != nil {
		h.env[len(h.env)-1][o] = &hCell{v}
		return
	}
	h.assignTo(x, v)
}

func (h *hx) assignTo(x ast.Expr, v Val) {
	switch l := ast.Unparen(x).(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return
		}
		if c := h.cell(h.t.pkg.info.Uses[l]); c != nil {
			c.v = v
			return
		}
	case *ast.IndexExpr:
		id, ok := ast.Unparen(l.X).(*ast.Ident)
		if !ok {
			break
		}
		c := h.cell(h.t.pkg.info.Uses[id])
		i := h.tm(h.eval(l.Index))
		k, isT := v.(*Term)
		if c == nil || !i.isInt() || !isT || !k.isInt() {
			break
		}
		if by, ok := c.v.(*BytesV); ok && !by.borrowed && by.t.op == "str" {
			in := i.val.Sign() >= 0 && i.val.Cmp(big.NewInt(int64(len(by.t.name)))) < 0
			h.require(h.b().Bool(in), "index", "panic", l.Pos())
			if !in {
				h.kill()
			}
			bs := []byte(by.t.name)
			bs[i.val.Int64()] = byte(k.val.Int64())
			c.v = &BytesV{nil_: by.nil_, t: h.b().Str(string(bs))}
			return
		}
	case *ast.SelectorExpr:
		if sel := h.t.pkg.info.Selections[l]; sel != nil && sel.Kind() == types.FieldVal && len(sel.Index()) == 1 {
			if id, ok := ast.Unparen(l.X).(*ast.Ident); ok {
				c := h.cell(h.t.pkg.info.Uses[id])
				if c != nil {
					if p, ok := c.v.(*hCell); ok {
						c = p
					}
					if s, ok := c.v.(*StructV); ok {
						n := &StructV{T: s.T, f: append([]Val{}, s.f...)}
						n.f[sel.Index()[0]] = v
						c.v = n
						return
					}
				}
			}
		}
	}
	panic(unsupported("assignment"))
}

func (h *hx) stmt(s ast.Stmt) {
	info := h.t.pkg.info
	switch x := s.(type) {
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		h.stmts(x.List)
	case *ast.ExprStmt:
		h.evals(x.X)
	case *ast.DeclStmt:
		g := x.Decl.(*ast.GenDecl)
		if g.Tok != token.VAR {
			return
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			if len(v.Values) == 0 {
				for _, n := range v.Names {
					if o := info.Defs[n]; o != nil {
						h.define(n, h.zero(o.Type()))
					}
				}
				continue
			}
			var vs []Val
			for _, e := range v.Values {
				vs = append(vs, h.evals(e)...)
			}
			for i, n := range v.Names {
				h.define(n, h.iface(vs[i]))
			}
		}
	case *ast.AssignStmt:
		if x.Tok == token.ADD_ASSIGN {
			h.assignTo(x.Lhs[0], h.binop(token.ADD, h.eval(x.Lhs[0]), h.eval(x.Rhs[0])))
			return
		}
		if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
			panic(unsupported("assignment %s", x.Tok))
		}
		var vs []Val
		if len(x.Rhs) == 1 && len(x.Lhs) == 2 {
			if ta, ok := ast.Unparen(x.Rhs[0]).(*ast.TypeAssertExpr); ok {
				v, k := h.typeAssert(ta)
				vs = []Val{v, h.b().Bool(k)}
			}
		}
		if vs == nil {
			for _, r := range x.Rhs {
				vs = append(vs, h.evals(r)...)
			}
		}
		if len(vs) != len(x.Lhs) {
			panic(unsupported("assignment"))
		}
		for i, l := range x.Lhs {
			if x.Tok == token.DEFINE {
				h.define(l, vs[i])
			} else {
				h.assignTo(l, vs[i])
			}
		}
	case *ast.IncDecStmt:
		d := int64(1)
		if x.Tok == token.DEC {
			d = -1
		}
		h.assignTo(x.X, h.b().Add(h.tm(h.eval(x.X)), h.b().Int(d)))
	case *ast.IfStmt:
		if x.Init != nil {
			h.stmt(x.Init)
		}
		if h.branch(h.tm(h.eval(x.Cond))) {
			h.stmts(x.Body.List)
		} else if x.Else != nil {
			h.stmt(x.Else)
		}
	case *ast.ReturnStmt:
		h.ctl = cReturn
		h.ret = nil
		for _, r := range x.Results {
			h.ret = append(h.ret, h.evals(r)...)
		}
		if len(x.Results) > 0 && h.ret == nil {
			h.ret = []Val{}
		}
	case *ast.BranchStmt:
		if x.Label != nil {
			panic(unsupported("label"))
		}
		switch x.Tok {
		case token.BREAK:
			h.ctl = cBreak
		case token.CONTINUE:
			h.ctl = cContinue
		default:
			panic(unsupported("%s", x.Tok))
		}
	case *ast.RangeStmt:
		l, ok := h.eval(x.X).(*hList)
		if !ok {
			panic(unsupported("range"))
		}
		for i, el := range l.el {
			set := h.define
			if x.Tok == token.ASSIGN {
				set = h.assignTo
			}
			if x.Key != nil {
				set(x.Key, h.b().Int(int64(i)))
			}
			if x.Value != nil {
				set(x.Value, el)
			}
			if h.loopBody(x.Body) {
				break
			}
		}
	case *ast.ForStmt:
		if x.Init != nil {
			h.stmt(x.Init)
		}
		for n := 0; ; n++ {
			if n > 64 {
				panic(unsupported("loop"))
			}
			if x.Cond != nil && !h.branch(h.tm(h.eval(x.Cond))) {
				break
			}
			if h.loopBody(x.Body) {
				break
			}
			if x.Post != nil {
				h.stmt(x.Post)
			}
		}
	case *ast.SwitchStmt:
		if x.Init != nil {
			h.stmt(x.Init)
		}
		var tag Val
		if x.Tag != nil {
			tag = h.eval(x.Tag)
		}
		var def *ast.CaseClause
		body := func(c *ast.CaseClause) {
			h.stmts(c.Body)
			if h.ctl == cBreak {
				h.ctl = cNormal
			}
		}
		for _, s := range x.Body.List {
			c := s.(*ast.CaseClause)
			if c.List == nil {
				def = c
				continue
			}
			for _, e := range c.List {
				v := h.eval(e)
				k := h.tm(v)
				if tag != nil {
					k = h.tm(h.binop(token.EQL, tag, v))
				}
				if h.branch(k) {
					body(c)
					return
				}
			}
		}
		if def != nil {
			body(def)
		}
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			h.stmt(x.Init)
		}
		var ex ast.Expr
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ex = a.Rhs[0]
		case *ast.ExprStmt:
			ex = a.X
		}
		v := h.eval(ast.Unparen(ex).(*ast.TypeAssertExpr).X)
		var def *ast.CaseClause
		body := func(c *ast.CaseClause) {
			if o := info.Implicits[c]; o != nil {
				h.env[len(h.env)-1][o] = &hCell{v}
			}
			h.stmts(c.Body)
			if h.ctl == cBreak {
				h.ctl = cNormal
			}
		}
		for _, s := range x.Body.List {
			c := s.(*ast.CaseClause)
			if c.List == nil {
				def = c
				continue
			}
			for _, e := range c.List {
				if h.hasType(v, info.Types[e].Type) {
					body(c)
					return
				}
			}
		}
		if def != nil {
			body(def)
		}
	default:
		panic(unsupported("statement %T", s))
	}
}

func (h *hx) loopBody(b *ast.BlockStmt) (stop bool) {
	h.stmts(b.List)
	switch h.ctl {
	case cBreak:
		h.ctl = cNormal
		return true
	case cContinue:
		h.ctl = cNormal
	case cReturn:
		return true
	}
	return false
}

func (h *hx) iface(v Val) Val { return v }

func (h *hx) eval(x ast.Expr) Val {
	r := h.evals(x)
	if len(r) != 1 {
		panic(unsupported("value"))
	}
	return r[0]
}

func (h *hx) evals(x ast.Expr) []Val { return h.evalN(ast.Unparen(x)) }

func (h *hx) evalN(x ast.Expr) []Val {
	info := h.t.pkg.info
	b := h.b()
	if tv, ok := info.Types[x]; ok && tv.Value != nil {
		if tv.Value.Kind() == constant.String {
			return []Val{b.Str(constant.StringVal(tv.Value))}
		}
		return []Val{h.constVal(tv.Value, tv.Type)}
	}
	one := func(v Val) []Val { return []Val{v} }
	switch e := x.(type) {
	case *ast.Ident:
		if e.Name == "nil" {
			return one(hNil{})
		}
		o := info.Uses[e]
		if c := h.cell(o); c != nil {
			return one(c.v)
		}
		if v, ok := o.(*types.Var); ok && v.Parent() == h.t.pkg.types.Scope() {
			return one(h.global(v))
		}
	case *ast.SelectorExpr:
		if sel := info.Selections[e]; sel != nil && sel.Kind() == types.FieldVal {
			v := h.eval(e.X)
			for _, i := range sel.Index() {
				if p, ok := v.(*hCell); ok {
					v = p.v
				}
				s, ok := v.(*StructV)
				if !ok {
					panic(unsupported("field of %s", showVal(v)))
				}
				v = s.f[i]
			}
			return one(v)
		}
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			if !h.branch(h.tm(h.eval(e.X))) {
				return one(b.F)
			}
			return one(h.eval(e.Y))
		case token.LOR:
			if h.branch(h.tm(h.eval(e.X))) {
				return one(b.T)
			}
			return one(h.eval(e.Y))
		}
		return one(h.binop(e.Op, h.eval(e.X), h.eval(e.Y)))
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return one(b.Not(h.tm(h.eval(e.X))))
		case token.SUB:
			return one(b.Sub(b.Int(0), h.tm(h.eval(e.X))))
		case token.AND:
			if id, ok := ast.Unparen(e.X).(*ast.Ident); ok {
				if c := h.cell(info.Uses[id]); c != nil {
					return one(c)
				}
			}
			if _, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
				return one(&hCell{h.eval(e.X)})
			}
		}
	case *ast.StarExpr:
		c, ok := h.eval(e.X).(*hCell)
		if !ok {
			break
		}
		// *(*string)(unsafe.Pointer(&buf)): the text of the bytes
		if by, ok := c.v.(*BytesV); ok {
			if T := info.Types[x].Type; under(T) == types.Typ[types.String] {
				return one(by.t)
			}
		}
		return one(c.v)
	case *ast.CompositeLit:
		return one(h.composite(e))
	case *ast.IndexExpr:
		v, i := h.eval(e.X), h.tm(h.eval(e.Index))
		switch l := v.(type) {
		case *hList:
			if i.isInt() && i.val.IsInt64() {
				k := i.val.Int64()
				if k < 0 || k >= int64(len(l.el)) {
					h.require(b.F, "index", "panic", e.Pos())
					h.kill()
				}
				return one(l.el[k])
			}
		default:
			t := h.str(v)
			h.require(b.And(b.Le(b.Int(0), i), b.Lt(i, h.strlen(t))), "index", "panic", e.Pos())
			return one(h.charat(t, i))
		}
	case *ast.SliceExpr:
		v := h.eval(e.X)
		if a, ok := v.(*hArr); ok {
			// the storage belongs to the one slice made of it
			if a.used || e.Low != nil && !isZeroLit(e.Low) || e.High == nil || !isZeroLit(e.High) || e.Max != nil {
				break
			}
			a.used = true
			return one(&BytesV{nil_: b.F, t: b.Str("")})
		}
		if l, ok := v.(*hList); ok {
			lo, hi := b.Int(0), b.Int(int64(len(l.el)))
			if e.Low != nil {
				lo = h.tm(h.eval(e.Low))
			}
			if e.High != nil {
				hi = h.tm(h.eval(e.High))
			}
			n := int64(len(l.el))
			if e.Max != nil || !lo.isInt() || !hi.isInt() || lo.val.Sign() < 0 || lo.val.Cmp(hi.val) > 0 || hi.val.Int64() > n {
				break
			}
			return one(&hList{append([]Val{}, l.el[lo.val.Int64():hi.val.Int64()]...)})
		}
		t := h.str(v)
		n := h.strlen(t)
		lo, hi := b.Int(0), n
		if e.Low != nil {
			lo = h.tm(h.eval(e.Low))
		}
		if e.High != nil {
			hi = h.tm(h.eval(e.High))
		}
		if e.Max != nil {
			break
		}
		h.require(b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, n)), "slice bounds", "panic", e.Pos())
		var r *Term
		switch {
		case lo.isInt() && lo.val.Sign() == 0 && hi == n:
			r = t
		case t.op == "str" && lo.isInt() && hi.isInt():
			r = b.Str(t.name[lo.val.Int64():hi.val.Int64()])
		case hi.isInt() && hi == lo:
			r = b.Str("")
		case t.op == "app" && t.name == "substr":
			r = b.App("substr", SStr, t.args[0], b.Add(t.args[1], lo), b.Add(t.args[1], hi))
		default:
			r = b.App("substr", SStr, t, lo, hi)
		}
		if by, ok := v.(*BytesV); ok {
			return one(&BytesV{nil_: by.nil_, t: r, borrowed: by.borrowed})
		}
		return one(r)
	case *ast.FuncLit:
		return one(&hFn{e})
	case *ast.TypeAssertExpr:
		v, ok := h.typeAssert(e)
		h.require(b.Bool(ok), "type assertion", "panic", e.Pos())
		if !ok {
			h.kill()
		}
		return one(v)
	case *ast.CallExpr:
		return h.call(e)
	}
	panic(unsupported("expression %T", x))
}

func isZeroLit(x ast.Expr) bool {
	l, ok := ast.Unparen(x).(*ast.BasicLit)
	return ok && l.Value == "0"
}

func (h *hx) charat(t, i *Term) *Term {
	b := h.b()
	if t.op == "app" && t.name == "substr" {
		return b.App("charat", SInt, t.args[0], b.Add(t.args[1], i))
	}
	if t.op == "str" && i.isInt() && i.val.Sign() >= 0 && i.val.IsInt64() && i.val.Int64() < int64(len(t.name)) {
		return b.Int(int64(t.name[i.val.Int64()]))
	}
	return b.App("charat", SInt, t, i)
}

func (h *hx) strlen(t *Term) *Term {
	if t.op == "str" {
		return h.b().Int(int64(len(t.name)))
	}
	if t.op == "app" && t.name == "substr" {
		return h.b().Sub(t.args[2], t.args[1]) // the bounds were checked
	}
	if t.op == "app" && t.name == "cat" {
		return h.b().Add(h.strlen(t.args[0]), h.strlen(t.args[1]))
	}
	return h.b().App("strlen", SInt, t)
}

// global is the value of a package-level variable that nothing in the package assigns.
func (h *hx) global(v *types.Var) Val {
	if x, ok := h.glob[v]; ok {
		return x
	}
	p := h.t.pkg
	var init ast.Expr
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ValueSpec:
				for i, id := range x.Names {
					if p.info.Defs[id] == v && len(x.Values) == len(x.Names) {
						init = x.Values[i]
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					for {
						if ix, ok := l.(*ast.IndexExpr); ok {
							l = ix.X
							continue
						}
						break
					}
					if id, ok := l.(*ast.Ident); ok && p.info.Uses[id] == v {
						panic(unsupported("assigned package variable %s", v.Name()))
					}
				}
			case *ast.UnaryExpr:
				if id, ok := x.X.(*ast.Ident); ok && x.Op == token.AND && p.info.Uses[id] == v {
					panic(unsupported("address of package variable %s", v.Name()))
				}
			}
			return true
		})
	}
	if init == nil {
		panic(unsupported("package variable %s", v.Name()))
	}
	x := h.eval(init)
	switch y := x.(type) {
	case *BytesV:
		x = &BytesV{nil_: y.nil_, t: y.t, borrowed: true} // what is appended would be shared by all calls
	case *hArr:
		y.used = true
	case *hBuf:
		panic(unsupported("package variable %s", v.Name()))
	}
	h.glob[v] = x
	return x
}

func (h *hx) composite(e *ast.CompositeLit) Val {
	T := h.t.pkg.info.Types[e].Type
	switch u := under(T).(type) {
	case *types.Struct:
		z := h.zero(T)
		s, ok := z.(*StructV)
		if !ok {
			if len(e.Elts) > 0 {
				break
			}
			return z
		}
		for i, el := range e.Elts {
			k := i
			v := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				v = kv.Value
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						k = j
					}
				}
			}
			s.f[k] = h.eval(v)
		}
		return s
	case *types.Slice, *types.Array:
		var el types.Type
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
		} else {
			el = u.(*types.Array).Elem()
		}
		if isByte(el) {
			r := h.b().Str("")
			for _, x := range e.Elts {
				t := h.tm(h.eval(x))
				if !t.isInt() {
					panic(unsupported("byte literal"))
				}
				r = h.cat(r, h.b().Str(string([]byte{byte(t.val.Int64())})))
			}
			return &BytesV{nil_: h.b().F, t: r}
		}
		l := &hList{}
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				k := h.tm(h.eval(kv.Key))
				if !k.isInt() || k.val.Cmp(big.NewInt(int64(len(l.el)))) != 0 {
					panic(unsupported("keyed list"))
				}
				x = kv.Value
			}
			l.el = append(l.el, h.eval(x))
		}
		return l
	}
	panic(unsupported("literal of %s", T))
}

func (h *hx) binop(op token.Token, x, y Val) Val {
	b := h.b()
	if op == token.EQL || op == token.NEQ {
		var r *Term
		_, xn := x.(hNil)
		_, yn := y.(hNil)
		switch {
		case xn && yn:
			r = b.T
		case xn || yn:
			v := x
			if xn {
				v = y
			}
			switch t := v.(type) {
			case *hErr, *StructV, *hCell, *hFn:
				r = b.F
			case *BytesV:
				r = t.nil_
			case *Term:
				if t.sort == SJV {
					r = h.jnil(t)
				}
			}
		default:
			s, ok := x.(*Term)
			t, ok2 := y.(*Term)
			if ok && ok2 && s.sort == t.sort && s.sort != SU {
				if s.sort == SStr {
					s, t = h.norm(s), h.norm(t)
					if s.op == "str" && s.name == "" {
						s, t = t, s
					}
					if t.op == "str" && t.name == "" {
						r = b.Eq(h.strlen(s), b.Int(0))
						break
					}
				}
				r = b.Eq(s, t)
			}
		}
		if r == nil {
			panic(unsupported("comparison of %s and %s", showVal(x), showVal(y)))
		}
		if op == token.NEQ {
			return b.Not(r)
		}
		return r
	}
	s, t := h.tm(x), h.tm(y)
	switch op {
	case token.ADD:
		if s.sort == SStr {
			return h.cat(s, t)
		}
		return b.Add(s, t)
	case token.SUB:
		return b.Sub(s, t)
	case token.LSS:
		return b.Lt(s, t)
	case token.LEQ:
		return b.Le(s, t)
	case token.GTR:
		return b.Lt(t, s)
	case token.GEQ:
		return b.Le(t, s)
	}
	panic(unsupported("operator %s", op))
}

// hasType: does the dynamic type of v satisfy T.
func (h *hx) hasType(v Val, T types.Type) bool {
	if T == types.Typ[types.UntypedNil] {
		_, ok := v.(hNil)
		return ok
	}
	it, isI := under(T).(*types.Interface)
	switch x := v.(type) {
	case hNil:
		return false
	case *hErr:
		if !isI {
			return false
		}
		// an error that is located by another package has Error, Unwrap and WrapPath; others are only errors
		for i := 0; i < it.NumMethods(); i++ {
			n := it.Method(i).Name()
			if n != "Error" && !(x.located && (n == "WrapPath" || n == "Unwrap")) {
				return false
			}
		}
		return true
	case *StructV:
		if isI {
			return types.Implements(x.T, it)
		}
		return types.Identical(x.T, T)
	case *hCell:
		if s, ok := x.v.(*StructV); ok {
			if isI {
				return types.Implements(types.NewPointer(s.T), it)
			}
			return types.Identical(types.NewPointer(s.T), T)
		}
	}
	panic(unsupported("type of %s", showVal(v)))
}

func (h *hx) typeAssert(e *ast.TypeAssertExpr) (Val, bool) {
	v := h.eval(e.X)
	T := h.t.pkg.info.Types[e.Type].Type
	if h.hasType(v, T) {
		return v, true
	}
	return h.zero(T), false
}

// method calls a method the package declares.
func (h *hx) method(recv Val, name string, args []Val, pos token.Pos) []Val {
	v := recv
	if c, ok := v.(*hCell); ok {
		v = c.v
	}
	s, ok := v.(*StructV)
	if !ok {
		panic(unsupported("method %s of %s", name, showVal(recv)))
	}
	n := namedOf(s.T)
	if n == nil {
		panic(unsupported("method %s", name))
	}
	fd := h.t.pkg.methods[n.Obj().Name()+"."+name]
	if fd == nil || fd.Body == nil {
		panic(unsupported("no method %s.%s", n.Obj().Name(), name))
	}
	rv := Val(s)
	if _, isP := fd.Recv.List[0].Type.(*ast.StarExpr); isP {
		if c, ok := recv.(*hCell); ok {
			rv = c
		} else {
			rv = &hCell{s}
		}
	}
	var id *ast.Ident
	if len(fd.Recv.List[0].Names) > 0 {
		id = fd.Recv.List[0].Names[0]
	}
	return h.invoke(fd.Type, fd.Body, id, rv, args)
}

func (h *hx) call(c *ast.CallExpr) []Val {
	info := h.t.pkg.info
	b := h.b()
	one := func(v Val) []Val { return []Val{v} }
	fun := ast.Unparen(c.Fun)
	// conversions
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		v := h.eval(c.Args[0])
		T := tv.Type
		switch x := v.(type) {
		case *BytesV:
			if under(T) == types.Typ[types.String] {
				return one(x.t)
			}
			return one(x)
		case *Term:
			if x.sort == SStr {
				if s, ok := under(T).(*types.Slice); ok && isByte(s.Elem()) {
					return one(&BytesV{nil_: b.F, t: x})
				}
				return one(x)
			}
		case *hCell, hNil, *hErr, *StructV:
			return one(x)
		}
		panic(unsupported("conversion to %s", T))
	}
	args := func() (r []Val) {
		for _, a := range c.Args {
			r = append(r, h.evals(a)...)
		}
		return
	}
	switch f := fun.(type) {
	case *ast.Ident:
		switch o := info.Uses[f].(type) {
		case *types.Builtin:
			return one(h.builtin(o.Name(), c))
		case *types.Func:
			return h.function(o, c, args())
		case *types.Var:
			if l, ok := h.eval(f).(*hFn); ok {
				return h.invoke(l.lit.Type, l.lit.Body, nil, nil, args())
			}
		}
	case *ast.FuncLit:
		return h.invoke(f.Type, f.Body, nil, nil, args())
	case *ast.SelectorExpr:
		if sel := info.Selections[f]; sel != nil {
			if sel.Kind() != types.MethodVal {
				break
			}
			return h.methodCall(h.eval(f.X), f.Sel.Name, c, args)
		}
		if o, ok := info.Uses[f.Sel].(*types.Func); ok {
			return h.function(o, c, args())
		}
	}
	panic(unsupported("call"))
}

func (h *hx) methodCall(recv Val, name string, c *ast.CallExpr, args func() []Val) []Val {
	b := h.b()
	one := func(v Val) []Val { return []Val{v} }
	switch x := recv.(type) {
	case *StructV:
		return h.method(x, name, args(), c.Pos())
	case *hCell:
		if _, ok := x.v.(*StructV); ok {
			return h.method(x, name, args(), c.Pos())
		}
	case *hErr:
		switch name {
		case "Error":
			return one(x.text)
		case "Unwrap":
			if x.inner != nil {
				return one(x.inner)
			}
		case "WrapPath":
			if x.located {
				p := h.str(args()[0])
				np := h.cat(p, b.Str("."), x.path)
				return one(&hErr{name: x.name, located: true, path: np, text: b.App("located", SStr, np, x.text)})
			}
		}
	case *hBuf:
		a := args()
		switch name {
		case "WriteString", "Write":
			t := h.str(a[0])
			x.t = h.cat(x.t, t)
			return []Val{h.strlen(t), hNil{}}
		case "WriteByte":
			if t := h.tm(a[0]); t.isInt() {
				x.t = h.cat(x.t, b.Str(string([]byte{byte(t.val.Int64())})))
				return one(hNil{})
			}
		case "String":
			return one(x.t)
		case "Bytes":
			return one(&BytesV{nil_: b.F, t: x.t})
		case "Len":
			return one(h.strlen(x.t))
		case "Grow":
			return nil
		}
	case hNil:
		h.require(b.F, "nil error", "panic", c.Pos())
		h.kill()
	case *hWr:
		out := x.out.v.(*Term)
		a := args()
		switch name {
		case "RawString":
			x.out.v = h.cat(out, h.str(a[0]))
			return nil
		case "RawByte":
			t := h.tm(a[0])
			if t.isInt() {
				x.out.v = h.cat(out, b.Str(string([]byte{byte(t.val.Int64())})))
				return nil
			}
		case "String":
			x.out.v = h.cat(out, b.App("quoteof", SStr, h.str(a[0])))
			return nil
		}
	case *Term:
		if x.sort == SJV {
			a := args()
			if name == "Type" {
				h.require(b.Not(h.jnil(x)), "nil json value", "panic", c.Pos())
				return one(b.App("jtype", SInt, x))
			}
			_ = a
		}
		if x.sort == SU {
			a := args()
			switch name {
			case "Format":
				return one(b.App("tfmt", SStr, x, h.str(a[0])))
			case "AppendFormat":
				by, ok := a[0].(*BytesV)
				if ok {
					return one(&BytesV{nil_: by.nil_, t: h.cat(by.t, b.App("tfmt", SStr, x, h.str(a[1])))})
				}
			case "IsZero":
				return one(b.Eq(x, b.App("zero:time", SU)))
			}
			// any other method: some function of the time and the arguments
			ts := []*Term{x}
			for _, v := range a {
				ts = append(ts, h.tm(v))
			}
			if T := h.t.pkg.info.Types[c].Type; timeLike(T) {
				return one(b.App("tm:"+name, SU, ts...))
			} else if s, ok := scalarSort(T); ok {
				return one(b.App("tm:"+name, s, ts...))
			}
		}
	}
	panic(unsupported("method %s of %s", name, showVal(recv)))
}

func (h *hx) builtin(name string, c *ast.CallExpr) Val {
	b := h.b()
	switch name {
	case "len", "cap":
		v := h.eval(c.Args[0])
		if l, ok := v.(*hList); ok {
			return b.Int(int64(len(l.el)))
		}
		if name == "len" {
			return h.strlen(h.str(v))
		}
	case "make":
		if s, ok := under(h.t.pkg.info.Types[c.Args[0]].Type).(*types.Slice); ok {
			if n := h.tm(h.eval(c.Args[1])); n.isInt() && n.val.Sign() >= 0 && n.val.Cmp(big.NewInt(64)) <= 0 {
				if isByte(s.Elem()) {
					return &BytesV{nil_: b.F, t: b.Str(strings.Repeat("\x00", int(n.val.Int64())))}
				}
				if n.val.Sign() == 0 {
					return &hList{}
				}
			}
		}
	case "append":
		v := h.eval(c.Args[0])
		switch x := v.(type) {
		case *BytesV:
			t := x.t
			if x.borrowed {
				h.obligation("memory shared by all calls is not written", "panic", false, "bytes are appended to a package variable", c.Pos())
			}
			for _, a := range c.Args[1:] {
				y := h.eval(a)
				if c.Ellipsis.IsValid() {
					t = h.cat(t, h.str(y))
					continue
				}
				k := h.tm(y)
				if !k.isInt() {
					panic(unsupported("append"))
				}
				t = h.cat(t, b.Str(string([]byte{byte(k.val.Int64())})))
			}
			return &BytesV{nil_: b.F, t: t}
		case *hList:
			l := &hList{el: append([]Val{}, x.el...)}
			for _, a := range c.Args[1:] {
				y := h.eval(a)
				if c.Ellipsis.IsValid() {
					z, ok := y.(*hList)
					if !ok {
						panic(unsupported("append"))
					}
					l.el = append(l.el, z.el...)
					continue
				}
				l.el = append(l.el, y)
			}
			return l
		}
	}
	panic(unsupported("builtin %s", name))
}

func (h *hx) function(o *types.Func, c *ast.CallExpr, a []Val) []Val {
	b := h.b()
	one := func(v Val) []Val { return []Val{v} }
	mk := func(t *Term, inner Val) Val {
		return &hErr{name: "made", text: h.norm(t), inner: inner}
	}
	pkg := ""
	if o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if o.Pkg() == h.t.pkg.types {
		fd := h.t.pkg.funcs[o.Name()]
		if fd == nil || fd.Body == nil {
			panic(unsupported("function %s", o.Name()))
		}
		return h.invoke(fd.Type, fd.Body, nil, nil, a)
	}
	fm := func(i int) *Term {
		f := h.str(a[i])
		if f.op != "str" {
			panic(unsupported("format"))
		}
		return h.format(f.name, a[i+1:])
	}
	switch pkg + "." + o.Name() {
	case "fmt.Sprintf":
		return one(fm(0))
	case "fmt.Errorf", "github.com/pkg/errors.Errorf":
		return one(mk(fm(0), nil))
	case "errors.New", "github.com/pkg/errors.New":
		return one(mk(h.str(a[0]), nil))
	case "github.com/pkg/errors.WithStack":
		if h.isNilErr(a[0]) {
			return a
		}
		return one(mk(h.errText(a[0]), a[0]))
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.WithMessage":
		if h.isNilErr(a[0]) {
			return one(hNil{})
		}
		return one(mk(h.cat(h.str(a[1]), b.Str(": "), h.errText(a[0])), a[0]))
	case "strings.Join":
		l, ok := a[0].(*hList)
		if !ok {
			break
		}
		r := b.Str("")
		for i, x := range l.el {
			if i > 0 {
				r = h.cat(r, h.str(a[1]))
			}
			r = h.cat(r, h.str(x))
		}
		return one(r)
	case "bytes.HasPrefix", "bytes.HasSuffix", "strings.HasPrefix", "strings.HasSuffix":
		t, p := h.str(a[0]), h.str(a[1])
		if p.op != "str" {
			break
		}
		n := b.Int(int64(len(p.name)))
		if !h.branch(b.Le(n, h.strlen(t))) {
			return one(b.F)
		}
		from := b.Int(0)
		if strings.HasSuffix(o.Name(), "Suffix") {
			from = b.Sub(h.strlen(t), n)
		}
		var all []*Term
		for i := range []byte(p.name) {
			all = append(all, b.Eq(h.charat(t, b.Add(from, b.Int(int64(i)))), b.Int(int64(p.name[i]))))
		}
		return one(b.And(all...))
	case "strconv.Itoa":
		return one(h.itoa(h.tm(a[0])))
	case "time.Parse":
		l, s := h.str(a[0]), h.str(a[1])
		if l.op == "str" {
			l = b.Str(parseLayout(l.name))
		}
		ok := b.App("tparse_ok", SBool, l, s)
		if h.branch(ok) {
			return []Val{b.App("tparse", SU, l, s), hNil{}}
		}
		return []Val{b.App("zero:time", SU), &hErr{name: "time.Parse", text: b.App("tperr", SStr, l, s)}}
	}
	panic(unsupported("function %s.%s", pkg, o.Name()))
}
