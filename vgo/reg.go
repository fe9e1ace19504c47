package main

import (
	"go/types"
	"sync"
	"time"
)

// declReg records, for the types declared in the packages under verification, the right-hand side of the declaration
// (which go/types forgets) and the annotation.
var declReg sync.Map // *types.TypeName -> declared

type declared struct {
	rhs   types.Type
	annot []string
}

func (p *Pkg) register() {
	if p.types == nil {
		return
	}
	for n, d := range p.decls {
		if tn, ok := p.info.Defs[d.Name].(*types.TypeName); ok {
			declReg.Store(tn, declared{p.info.Types[d.Type].Type, p.annot[n]})
		}
	}
}

func declOf(T types.Type) (declared, bool) {
	n := namedOf(T)
	if n == nil {
		return declared{}, false
	}
	d, ok := declReg.Load(n.Obj())
	if !ok {
		return declared{}, false
	}
	return d.(declared), true
}

// genCodec: the codec of T is generated, so its contract is the one of T's declaration.
func genCodec(T types.Type) (rhs types.Type, ok bool) {
	d, ok := declOf(T)
	if !ok || len(d.annot) == 0 || has(d.annot, "custom") || d.rhs == nil {
		return nil, false
	}
	if _, isS := d.rhs.(*types.Struct); isS {
		return nil, false
	}
	return d.rhs, true
}

// decView is the type as which j is decoded: a generated named type that is not a struct may be decoded by its own
// method or in place, as what it is declared to be.
func (x *Exec) decView(T types.Type, j *Term) types.Type {
	for hasCodec(T, "FillFromJSON") {
		rhs, ok := genCodec(T)
		if !ok || x.mentionsTerm(x.b().App("ok:"+typeKey(T), SBool, j)) {
			return T
		}
		T = rhs
	}
	return T
}

func (x *Exec) mentionsTerm(t *Term) bool {
	for _, p := range x.st.pc {
		if mentions(p, t) {
			return true
		}
	}
	return false
}

// layoutOf: a layout tag may name one of the constants of package time.
func layoutOf(s string) string {
	if l, ok := timeLayouts[s]; ok {
		return l
	}
	return s
}

var timeLayouts = map[string]string{
	"time.Layout": time.Layout, "time.ANSIC": time.ANSIC, "time.UnixDate": time.UnixDate, "time.RubyDate": time.RubyDate,
	"time.RFC822": time.RFC822, "time.RFC822Z": time.RFC822Z, "time.RFC850": time.RFC850, "time.RFC1123": time.RFC1123,
	"time.RFC1123Z": time.RFC1123Z, "time.RFC3339": time.RFC3339, "time.RFC3339Nano": time.RFC3339Nano,
	"time.Kitchen": time.Kitchen, "time.Stamp": time.Stamp, "time.StampMilli": time.StampMilli,
	"time.StampMicro": time.StampMicro, "time.StampNano": time.StampNano, "time.DateTime": time.DateTime,
	"time.DateOnly": time.DateOnly, "time.TimeOnly": time.TimeOnly,
}

// noElems is emptiness as the method of a named collection type has it: no elements.
func (x *Exec) noElems(T types.Type, v Val) *Term {
	b := x.b()
	if u, ok := under(T).(*types.Pointer); ok {
		if _, ok := under(u.Elem()).(*types.Pointer); ok {
			return x.nilChain(T, v)
		}
	}
	if _, ok := genCodec(T); !ok {
		return x.empty(T, v)
	}
	switch under(T).(type) {
	case *types.Slice:
		return b.Eq(x.slice(v).len, b.Int(0))
	case *types.Map:
		if m, ok := x.force(v).(*MapV); ok && m.org != nil {
			return b.Eq(b.App("mlen", SInt, m.org), b.Int(0))
		}
	}
	return x.empty(T, v)
}

// nilChain: v is a nil pointer, or a pointer to one.
func (x *Exec) nilChain(T types.Type, v Val) *Term {
	p, ok := x.force(v).(*PtrV)
	u, is := under(T).(*types.Pointer)
	if !ok || !is {
		return x.b().F
	}
	if x.prove(p.nil_) {
		return x.b().T
	}
	if _, is := under(u.Elem()).(*types.Pointer); !is || !x.prove(x.b().Not(p.nil_)) {
		return p.nil_
	}
	return x.nilChain(u.Elem(), x.load(x.ptrLoc(p)))
}
