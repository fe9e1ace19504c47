package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"strings"
)

// Unsupported is raised for source outside the verifier's subset.
type Unsupported struct{ msg string }

func unsupported(f string, a ...any) Unsupported {
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	return Unsupported{f}
}

type Val interface{}

type (
	// Opq is an opaque value of Go type T named by term t; it is expanded on demand.
	Opq struct {
		t *Term
		T types.Type
	}
	StructV struct {
		T types.Type
		f []Val
	}
	PtrV struct {
		nil_ *Term
		obj  int // heap object; 0: none
		path []Step
		org  *Term // origin of a symbolic pointer, pointee not yet materialised
		box  Val   // closed pointer: content by value
		elem types.Type
	}
	SliceV struct {
		nil_, len, cap, off *Term
		arr                 int // heap object of the backing array, 0 if closed
		apath               []Step
		seq                 *Seq
		elem                types.Type
		org                 *Term
		appended            bool
	}
	// Seq is the content of an array: a base function with overlaid writes.
	Seq struct {
		n    *Term
		elem types.Type
		base func(e *Exec, i *Term) Val // specification side only
		org  *Term                      // term naming the whole content
		jv   *Term                      // the elements of this JSON array
		zero bool                       // all zero values
		win  *seqWin
		spl  *seqSplit
		hv   string // arbitrary content, named
		over []seqW
		b64e *b64enc
	}
	// seqWin: element i is in[i+off].
	seqWin struct {
		in  *Seq
		off *Term
	}
	// seqSplit: element i is a[i-lo] for lo<=i<hi, else b[i].
	seqSplit struct {
		lo, hi *Term
		a, b   *Seq
	}
	// b64enc: the first n bytes are the base64 encoding of src.
	b64enc struct {
		src Val
		n   *Term
	}
	// seqW is one write at index i, or (fill) a write at every index lo+idx for idx in [0,n).
	seqW struct {
		i    *Term
		v    Val
		fill bool
		idx  *Term
		lo   *Term
		n    *Term
	}
	// Step of an access path: a field, or an index.
	Step struct {
		fld int
		idx *Term
	}
	// BorrowS is a text that shares memory with the parser's buffer or the input.
	BorrowS struct{ t *Term }
	MapV    struct {
		nil_ *Term
		obj  int
		c    *MapC
		T    *types.Map
		org  *Term
	}
	MapC struct {
		org *Term // nil: empty base
		ops []MapOp
	}
	MapOp struct {
		kind string // set, del, fold, clear
		k, v Val
		fold *Fold
	}
	// Fold is the summarised effect of a loop on a map: for i in [0,n) in order, the ops of the case that holds.
	Fold struct {
		idx   *Term
		n     *Term
		cases []FoldCase
	}
	FoldCase struct {
		cond *Term
		ops  []MapOp
	}
	ErrV struct {
		nil_    *Term
		path    []*Term
		org     *Term  // nested error this one wraps / is
		desc    string // for messages
		wraps   *ErrV
		located bool
	}
	FuncV struct {
		lit *ast.FuncLit
	}
	CaseV struct {
		cases []CaseE
		total bool // the cases are known to be exhaustive
	}
	CaseE struct {
		cond *Term
		v    Val
	}
	TupleV struct{ vs []Val }
	// BytesV is a byte slice whose content is the text t.
	BytesV struct {
		nil_     *Term
		t        *Term
		borrowed bool
	}
	// B64S is the text obtained by base64-encoding the bytes src.
	B64S    struct{ src Val }
	WriterV struct {
		segs []Seg
		err  *ErrV
	}
	// BufV is the []byte under construction by AppendFormat and friends (template helpers).
	BufV struct{ segs []Seg }
	ObjV struct{ v *Term } // *fastjson.Object of JSON value v
	// LibV is some library object (parser, pool).
	LibV struct {
		kind string
		t    *Term
		typ  types.Type
		fn   *types.Func
		obj  int
	}
	// UnboundV marks a havocked value.
	Havoc struct{ why string }
)

// Seg is a piece of encoder output.
type Seg struct {
	kind string // const, quote, int, uint, float, enc, raw, loop, time, b64, opaque
	s    string
	t    *Term
	v    Val
	T    types.Type
	lay  Val
	loop *SegLoop
}

// SegLoop is a repeated piece of output: for i in [0,n) the segments of the case that holds.
type SegLoop struct {
	idx   *Term
	n     *Term
	cases []SegCase
}

type SegCase struct {
	cond *Term
	segs []Seg
}

func (s Seg) String() string {
	switch s.kind {
	case "const":
		return fmt.Sprintf("%q", s.s)
	case "loop":
		var cs []string
		for _, c := range s.loop.cases {
			cs = append(cs, fmt.Sprintf("[%v] %v", c.cond, c.segs))
		}
		return fmt.Sprintf("loop<%v<%v>{%s}", s.loop.idx, s.loop.n, strings.Join(cs, "; "))
	}
	return fmt.Sprintf("%s(%s)", s.kind, showVal(s.v))
}

func showVal(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return x.String()
	case *Opq:
		return x.t.String()
	case *StructV:
		var p []string
		for _, f := range x.f {
			p = append(p, showVal(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *PtrV:
		if x.nil_.isTrue() {
			return "nil"
		}
		if x.box != nil {
			return "&(" + showVal(x.box) + ")?nil=" + x.nil_.String()
		}
		if x.org != nil {
			return "ptr:" + x.org.String()
		}
		return fmt.Sprintf("&obj%d%v(nil=%v)", x.obj, x.path, x.nil_)
	case *SliceV:
		return fmt.Sprintf("slice(nil=%v len=%v arr=%d)", x.nil_, x.len, x.arr)
	case *Seq:
		s := "seq("
		if x.zero {
			s += "zero"
		}
		if x.org != nil {
			s += x.org.String()
		}
		for _, o := range x.over {
			s += fmt.Sprintf(" [%v]=%s", o.i, showVal(o.v))
		}
		return s + ")"
	case *MapV:
		return fmt.Sprintf("map(nil=%v obj=%d)", x.nil_, x.obj)
	case *ErrV:
		if x.nil_.isTrue() {
			return "nil"
		}
		var p []string
		for _, t := range x.path {
			p = append(p, t.String())
		}
		return fmt.Sprintf("error{path %q org %v %s}", strings.Join(p, "."), x.org, x.desc)
	case *CaseV:
		var p []string
		for _, c := range x.cases {
			p = append(p, fmt.Sprintf("%v => %s", c.cond, showVal(c.v)))
		}
		return "cases{" + strings.Join(p, "; ") + "}"
	case *BytesV:
		return "bytes(" + x.t.String() + ")"
	case *B64S:
		return "b64(" + showVal(x.src) + ")"
	case *Havoc:
		return "?" + x.why
	}
	return fmt.Sprintf("%T", v)
}

// ---------------------------------------------------------------- Go types

func under(t types.Type) types.Type { return t.Underlying() }

func namedOf(t types.Type) *types.Named {
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func typeIs(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

const fjPath = "github.com/valyala/fastjson"
const jwPath = "github.com/mailru/easyjson/jwriter"

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func isJV(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && typeIs(p.Elem(), fjPath, "Value")
}

// opaqueLeaf: types whose inside the verifier never looks at.
func opaqueLeaf(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "time":
		return n.Obj().Name() == "Time"
	case "github.com/google/uuid":
		return n.Obj().Name() == "UUID"
	}
	return false
}

// timeLike reports that t is time.Time or a named type with the same structure.
func timeLike(t types.Type) bool {
	if typeIs(t, "time", "Time") {
		return true
	}
	s, ok := under(t).(*types.Struct)
	if !ok || s.NumFields() != 3 {
		return false
	}
	return s.Field(0).Pkg() != nil && s.Field(0).Pkg().Path() == "time"
}

func uuidLike(t types.Type) bool {
	if typeIs(t, "github.com/google/uuid", "UUID") {
		return true
	}
	if d, ok := declOf(t); ok && d.rhs != nil && namedOf(d.rhs) != nil {
		return uuidLike(d.rhs)
	}
	return false
}

func scalarSort(t types.Type) (Sort, bool) {
	if isJV(t) {
		return SJV, true
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		return "", false
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SBool, true
	case b.Info()&types.IsInteger != 0:
		return SInt, true
	case b.Info()&types.IsString != 0:
		return SStr, true
	case b.Kind() == types.Float32:
		return SF32, true
	case b.Info()&types.IsFloat != 0:
		return SF64, true
	}
	return "", false
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := 64, true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return lo, hi, true
}

// unaliased replaces the alias names a type is made of by what they stand for.
func unaliased(t types.Type) types.Type {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return types.NewPointer(unaliased(u.Elem()))
	case *types.Slice:
		return types.NewSlice(unaliased(u.Elem()))
	case *types.Array:
		return types.NewArray(unaliased(u.Elem()), u.Len())
	case *types.Map:
		return types.NewMap(unaliased(u.Key()), unaliased(u.Elem()))
	default:
		return u
	}
}

func typeKey(t types.Type) string {
	t = unaliased(t)
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func hasMethod(t types.Type, name string) bool {
	n := namedOf(t)
	if n == nil {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return true
		}
	}
	return false
}
