package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- memory named by terms

type lazyInfo struct {
	t    *Term
	init Val
}

type poison struct {
	pat, k *Term
	pre    string
}

// materialise gives the memory that t refers to an object of its own.
func (e *Exec) materialise(key string, t *Term, init Val) int {
	if e.t.lazyInit == nil {
		e.t.lazyInit = map[string]lazyInfo{}
	}
	if _, ok := e.t.lazyInit[key]; !ok {
		e.t.lazyInit[key] = lazyInfo{t, init}
	}
	for _, p := range e.st.poison {
		if strings.HasPrefix(key, p.pre) && matchTerm(p.pat, t, p.k, map[int]*Term{}) {
			panic(unsupported("use of memory changed in a loop"))
		}
	}
	obj := e.alloc(init)
	e.st.lazy[key] = obj
	return obj
}

// matchTerm: is t an instance of pat with k replaced by something.
func matchTerm(pat, t, k *Term, m map[int]*Term) bool {
	if pat == k {
		if o := m[k.id]; o != nil {
			return o == t
		}
		m[k.id] = t
		return true
	}
	if pat == t {
		return true
	}
	if pat.op != t.op || pat.name != t.name || len(pat.args) != len(t.args) || len(pat.args) == 0 {
		return false
	}
	for i := range pat.args {
		if !matchTerm(pat.args[i], t.args[i], k, m) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- structural equality and substitution

func (e *Exec) sameVal(a, b Val) bool { return sameVal(a, b) }

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Term:
		return false
	case *Opq:
		y, ok := b.(*Opq)
		return ok && x.t == y.t
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.nil_ != y.nil_ {
			return false
		}
		if x.nil_.isTrue() {
			return true
		}
		if x.obj == 0 && y.obj == 0 && x.org != nil {
			return x.org == y.org
		}
		return x.obj == y.obj && x.org == y.org && samePath(x.path, y.path) && (x.box == nil) == (y.box == nil) && (x.box == nil || sameVal(x.box, y.box))
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok || x.nil_ != y.nil_ || x.len != y.len || x.cap != y.cap || x.off != y.off || x.arr != y.arr || !samePath(x.apath, y.apath) {
			return false
		}
		return x.arr != 0 || sameVal(x.seq, y.seq)
	case *Seq:
		y, ok := b.(*Seq)
		if !ok || y == nil || x == nil {
			return false
		}
		if x.n != y.n || x.org != y.org || x.jv != y.jv || x.zero != y.zero || x.hv != y.hv || len(x.over) != len(y.over) || x.b64e != y.b64e || x.base != nil || y.base != nil {
			return false
		}
		if (x.win == nil) != (y.win == nil) || (x.spl == nil) != (y.spl == nil) {
			return false
		}
		if x.win != nil && (x.win.off != y.win.off || !sameVal(x.win.in, y.win.in)) {
			return false
		}
		if x.spl != nil && (x.spl.lo != y.spl.lo || x.spl.hi != y.spl.hi || !sameVal(x.spl.a, y.spl.a) || !sameVal(x.spl.b, y.spl.b)) {
			return false
		}
		for i := range x.over {
			p, q := x.over[i], y.over[i]
			if p.fill != q.fill || p.i != q.i || p.idx != q.idx || p.lo != q.lo || p.n != q.n || !sameVal(p.v, q.v) {
				return false
			}
		}
		return true
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.nil_ == y.nil_ && x.obj == y.obj && (x.nil_.isTrue() || x.obj != 0 || x.c == y.c)
	case *MapC:
		y, ok := b.(*MapC)
		if !ok || x.org != y.org || len(x.ops) != len(y.ops) {
			return false
		}
		for i := range x.ops {
			p, q := x.ops[i], y.ops[i]
			if p.kind != q.kind || p.fold != q.fold || !sameVal(p.k, q.k) || !sameVal(p.v, q.v) {
				return false
			}
		}
		return true
	case *ErrV:
		y, ok := b.(*ErrV)
		if !ok || x.nil_ != y.nil_ {
			return false
		}
		if x.nil_.isTrue() {
			return true
		}
		if x.org != y.org || len(x.path) != len(y.path) || x.desc != y.desc {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return true
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && x.lit == y.lit
	case *BytesV:
		y, ok := b.(*BytesV)
		return ok && x.t == y.t && x.nil_ == y.nil_ && x.borrowed == y.borrowed
	case *BorrowS:
		y, ok := b.(*BorrowS)
		return ok && x.t == y.t
	case *B64S:
		y, ok := b.(*B64S)
		return ok && sameVal(x.src, y.src)
	case *WriterV:
		y, ok := b.(*WriterV)
		if !ok || len(x.segs) != len(y.segs) || !sameVal(x.err, y.err) {
			return false
		}
		for i := range x.segs {
			if !sameSeg(x.segs[i], y.segs[i]) {
				return false
			}
		}
		return true
	case *ObjV:
		y, ok := b.(*ObjV)
		return ok && x.v == y.v
	case *LibV:
		y, ok := b.(*LibV)
		return ok && x.kind == y.kind && x.t == y.t && x.obj == y.obj
	case *Havoc:
		y, ok := b.(*Havoc)
		return ok && x.why == y.why
	case *CaseV:
		y, ok := b.(*CaseV)
		if !ok || len(x.cases) != len(y.cases) {
			return false
		}
		for i := range x.cases {
			if x.cases[i].cond != y.cases[i].cond || !sameVal(x.cases[i].v, y.cases[i].v) {
				return false
			}
		}
		return true
	case *TupleV:
		return false
	}
	return false
}

func samePath(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameSeg(a, b Seg) bool {
	return a.kind == b.kind && a.s == b.s && a.t == b.t && a.loop == b.loop && (a.v == nil && b.v == nil || sameVal(a.v, b.v)) && (a.lay == nil && b.lay == nil || sameVal(a.lay, b.lay))
}

func (t *Task) substVal(v Val, from, to *Term) Val {
	s := func(x *Term) *Term {
		if x == nil {
			return nil
		}
		return t.b.Subst(x, from, to)
	}
	sv := func(v Val) Val {
		if v == nil {
			return nil
		}
		return t.substVal(v, from, to)
	}
	sp := func(p []Step) []Step {
		var r []Step
		for _, x := range p {
			if x.idx != nil {
				x.idx = s(x.idx)
			}
			r = append(r, x)
		}
		return r
	}
	switch x := v.(type) {
	case nil:
		return nil
	case *Term:
		return s(x)
	case *Opq:
		return &Opq{s(x.t), x.T}
	case *StructV:
		c := &StructV{T: x.T}
		for _, f := range x.f {
			c.f = append(c.f, sv(f))
		}
		return c
	case *PtrV:
		c := *x
		c.nil_, c.org, c.path, c.box = s(x.nil_), s(x.org), sp(x.path), sv(x.box)
		return &c
	case *SliceV:
		c := *x
		c.nil_, c.len, c.cap, c.off, c.org, c.apath = s(x.nil_), s(x.len), s(x.cap), s(x.off), s(x.org), sp(x.apath)
		if x.seq != nil {
			c.seq = sv(x.seq).(*Seq)
		}
		return &c
	case *Seq:
		if x == nil {
			return x
		}
		c := *x
		if x.base != nil {
			panic(unsupported("substitution in a specification sequence"))
		}
		c.n, c.org, c.jv = s(x.n), s(x.org), s(x.jv)
		if x.win != nil {
			c.win = &seqWin{sv(x.win.in).(*Seq), s(x.win.off)}
		}
		if x.spl != nil {
			c.spl = &seqSplit{s(x.spl.lo), s(x.spl.hi), sv(x.spl.a).(*Seq), sv(x.spl.b).(*Seq)}
		}
		if x.b64e != nil {
			c.b64e = &b64enc{sv(x.b64e.src), s(x.b64e.n)}
		}
		c.over = nil
		for _, o := range x.over {
			o.i, o.lo, o.n = s(o.i), s(o.lo), s(o.n)
			if o.idx != from {
				o.v = sv(o.v)
				o.idx = s(o.idx)
			}
			c.over = append(c.over, o)
		}
		return &c
	case *MapV:
		c := *x
		c.nil_, c.org = s(x.nil_), s(x.org)
		if x.c != nil {
			c.c = sv(x.c).(*MapC)
		}
		return &c
	case *MapC:
		return &MapC{org: s(x.org), ops: t.substOps(x.ops, from, to)}
	case *ErrV:
		c := *x
		c.nil_, c.org = s(x.nil_), s(x.org)
		c.path = nil
		for _, p := range x.path {
			c.path = append(c.path, s(p))
		}
		return &c
	case *BytesV:
		return &BytesV{s(x.nil_), s(x.t), x.borrowed}
	case *BorrowS:
		return &BorrowS{s(x.t)}
	case *B64S:
		return &B64S{sv(x.src)}
	case *CaseV:
		c := &CaseV{total: x.total}
		for _, k := range x.cases {
			c.cases = append(c.cases, CaseE{s(k.cond), sv(k.v)})
		}
		return c
	case *ObjV:
		return &ObjV{s(x.v)}
	case *LibV, *FuncV, *Havoc:
		return x
	case *WriterV:
		return &WriterV{segs: t.substSegs(x.segs, from, to), err: sv(x.err).(*ErrV)}
	}
	panic(unsupported("substitution in %T", v))
}

func (t *Task) substOps(ops []MapOp, from, to *Term) []MapOp {
	var r []MapOp
	for _, o := range ops {
		if o.k != nil {
			o.k = t.substVal(o.k, from, to)
		}
		if o.v != nil {
			o.v = t.substVal(o.v, from, to)
		}
		if o.fold != nil {
			f := &Fold{idx: o.fold.idx, n: t.b.Subst(o.fold.n, from, to)}
			if f.idx != from {
				f.idx = t.b.Subst(f.idx, from, to)
			}
			for _, c := range o.fold.cases {
				if o.fold.idx != from {
					c.cond = t.b.Subst(c.cond, from, to)
					c.ops = t.substOps(c.ops, from, to)
				}
				f.cases = append(f.cases, c)
			}
			o.fold = f
		}
		r = append(r, o)
	}
	return r
}

func (t *Task) substSegs(segs []Seg, from, to *Term) []Seg {
	var r []Seg
	for _, s := range segs {
		if s.t != nil {
			s.t = t.b.Subst(s.t, from, to)
		}
		if s.v != nil {
			s.v = t.substVal(s.v, from, to)
		}
		if s.lay != nil {
			s.lay = t.substVal(s.lay, from, to)
		}
		if s.loop != nil {
			l := &SegLoop{idx: s.loop.idx, n: t.b.Subst(s.loop.n, from, to)}
			if l.idx != from {
				l.idx = t.b.Subst(l.idx, from, to)
			}
			for _, c := range s.loop.cases {
				if s.loop.idx != from {
					c.cond = t.b.Subst(c.cond, from, to)
					c.segs = t.substSegs(c.segs, from, to)
				}
				l.cases = append(l.cases, c)
			}
			s.loop = l
		}
		r = append(r, s)
	}
	return r
}

func (t *Task) substCond(c Cond, from, to *Term) Cond {
	var r Cond
	for _, x := range c.ts {
		r.ts = append(r.ts, t.b.Subst(x, from, to))
	}
	for _, f := range c.fas {
		r.fas = append(r.fas, t.substForall(f, from, to))
	}
	return r
}

func (t *Task) substForall(f *Forall, from, to *Term) *Forall {
	g := &Forall{idx: f.idx, n: t.b.Subst(f.n, from, to)}
	if f.idx != from {
		g.idx = t.b.Subst(f.idx, from, to)
	}
	for _, c := range f.cases {
		if f.idx == from {
			g.cases = append(g.cases, c)
		} else {
			g.cases = append(g.cases, t.substCond(c, from, to))
		}
	}
	return g
}

// closeVal turns references to objects allocated since min into values; what refers to older objects stays a
// reference (it is shared between iterations).
func (e *Exec) closeVal(v Val, min int) Val {
	switch x := v.(type) {
	case *StructV:
		c := &StructV{T: x.T}
		for _, f := range x.f {
			c.f = append(c.f, e.closeVal(f, min))
		}
		return c
	case *PtrV:
		if x.nil_.isTrue() || x.obj == 0 && x.org != nil {
			if x.org != nil {
				if obj, ok := e.st.lazy["ptr:"+x.org.key]; ok && !e.lazyUnchanged("ptr:"+x.org.key, obj) {
					return &PtrV{nil_: x.nil_, box: e.closeVal(e.load(Loc{obj: obj}), min), elem: x.elem}
				}
			}
			return x
		}
		if x.box != nil {
			return x
		}
		if x.obj != 0 && x.obj >= min {
			return &PtrV{nil_: x.nil_, box: e.closeVal(e.load(e.ptrLoc(x)), min), elem: x.elem}
		}
		return x
	case *SliceV:
		if x.arr == 0 {
			return x
		}
		key := ""
		if x.org != nil {
			key = "arr:" + x.org.key
		}
		if key != "" && e.st.lazy[key] == x.arr && e.lazyUnchanged(key, x.arr) {
			c := *x
			c.seq, c.arr = e.seqOf(x), 0
			return &c
		}
		if x.arr >= min || key != "" && e.st.lazy[key] == x.arr {
			c := *x
			c.seq = e.closeVal(e.seqOf(x), min).(*Seq)
			c.arr, c.apath, c.org = 0, nil, nil
			return &c
		}
		return x
	case *Seq:
		if len(x.over) == 0 {
			return x
		}
		c := *x
		c.over = nil
		for _, o := range x.over {
			o.v = e.closeVal(o.v, min)
			c.over = append(c.over, o)
		}
		return &c
	case *MapV:
		if x.obj == 0 {
			return x
		}
		if x.obj >= min || x.org != nil {
			c := *x
			c.c = e.st.heap[x.obj].(*MapC)
			c.obj = 0
			return &c
		}
		return x
	case *CaseV:
		c := &CaseV{total: x.total}
		for _, k := range x.cases {
			c.cases = append(c.cases, CaseE{k.cond, e.closeVal(k.v, min)})
		}
		return c
	case *Opq:
		if e.touched(x.t) {
			return e.closeVal(e.force(x), min)
		}
		return v
	}
	return v
}

// touched: memory reached through the value t has been changed.
func (e *Exec) touched(t *Term) bool {
	for key, obj := range e.st.lazy {
		li, ok := e.t.lazyInit[key]
		if ok && mentions(li.t, t) && !e.lazyUnchanged(key, obj) {
			return true
		}
	}
	return false
}

func (e *Exec) lazyUnchanged(key string, obj int) bool {
	li, ok := e.t.lazyInit[key]
	return ok && (sameVal(li.init, e.st.heap[obj]) || e.reifyIs(e.st.heap[obj], li.init))
}

// ---------------------------------------------------------------- loops

type loopExit struct {
	st     *State
	ctl    ctl
	ret    []Val
	sticky bool
}

type loopResult struct {
	normal *State
	exits  []loopExit
}

type cell struct {
	obj   int
	path  []Step
	init  Val
	tried int
	at    func(k *Term) Val // value at the start of iteration k
	fill  string            // "", "seq", "map", "writer", "append"
	step  *Term             // slices, counters: growth per iteration
	names map[int64]*Term   // counters: index -> member name
	lo    *Term
	hv    string
}

func cellKey(obj int, path []Step) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", obj)
	for _, p := range path {
		fmt.Fprintf(&sb, ".%d", p.fld)
	}
	return sb.String()
}

// loop executes n iterations of iter, summarised by inferred and verified invariants.
func (e *Exec) loop(node ast.Node, n *Term, iter func(x *Exec, k *Term), visit bool, over *Term) {
	b := e.b()
	e.nloops++
	if e.prove(b.Le(n, b.Int(0))) {
		return
	}
	key := fmt.Sprintf("%d|%s|%d", node.Pos(), e.trace(), e.nloops)
	r := e.t.loops[key]
	if r == nil {
		r = e.summarise(node, n, iter, visit, over)
		e.t.loops[key] = r
	}
	c := 0
	if len(r.exits) > 0 {
		c = e.choose(len(r.exits) + 1)
	}
	if c == 0 {
		e.st = r.normal.clone()
	} else {
		x := r.exits[c-1]
		e.st = x.st.clone()
		e.ctl = x.ctl
		if x.ctl == cReturn {
			e.fr().ret = append([]Val(nil), x.ret...)
		}
		if x.ctl == cBreak {
			e.ctl = cNormal
		}
	}
	if !e.t.feasible(e.st.pc) {
		e.kill()
	}
}

type iterRes struct {
	x       *Exec
	sticky  bool
	changes map[string]change
}

type change struct {
	obj      int
	path     []Step
	old, new Val
}

func (e *Exec) summarise(node ast.Node, n *Term, iter func(x *Exec, k *Term), visit bool, over *Term) *loopResult {
	b := e.b()
	e.nfresh++
	k := b.App(fmt.Sprintf("k#%s%d", e.trace(), e.nfresh), SInt, e.loopIdx...)
	cells := map[string]*cell{}
	var order []string
	var runs []iterRes
	startObj := 0

	run := func(prior *Forall, final bool) []iterRes {
		st := e.st.clone()
		for _, ck := range order {
			c := cells[ck]
			e.setCell(st, c, k)
		}
		st.assume(b.Le(b.Int(0), k))
		st.assume(b.Lt(k, n))
		st.wits = append(st.wits, k)
		if prior != nil {
			st.fas = append(st.fas, prior)
		}
		for _, ck := range order {
			for _, nm := range cells[ck].names {
				st.assume(e.cntStep(nm, over, k))
				st.assume(e.cntZero(nm, over))
			}
		}
		if !e.t.feasible(st.pc) {
			return nil
		}
		if !final {
			e.t.quiet++
			defer func() { e.t.quiet-- }()
		}
		exs := e.t.explore(st, e, func(x *Exec) {
			x.loopIdx = append(append([]*Term(nil), x.loopIdx...), k)
			x.inLoop++
			iter(x, k)
			if x.ctl == cContinue {
				x.ctl = cNormal
			}
		})
		var rs []iterRes
		for _, x := range exs {
			r := iterRes{x: x, changes: map[string]change{}}
			for obj := 1; obj < startObj; obj++ {
				diffVal(st.heap[obj], x.st.heap[obj], obj, nil, e, r.changes)
			}
			if visit && x.ctl == cNormal {
				for _, ch := range r.changes {
					o, ok1 := ch.old.(*ErrV)
					w, ok2 := ch.new.(*ErrV)
					if ok1 && ok2 && o.nil_.isTrue() && w.nil_.isFalse() && e.noopAfter(x, n, k, iter, startObj) {
						r.sticky = true
					}
				}
			}
			rs = append(rs, r)
		}
		return rs
	}

	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop invariant inference does not converge"))
		}
		startObj = e.st.nextObj
		runs = run(nil, false)
		// memory first touched inside the loop but not belonging to one iteration
		again := false
		for _, r := range runs {
			var keys []string
			for key := range r.x.st.lazy {
				if _, ok := e.st.lazy[key]; !ok {
					keys = append(keys, key)
				}
			}
			sort.Strings(keys)
			for _, key := range keys {
				li := e.t.lazyInit[key]
				if _, ok := e.st.lazy[key]; !ok && !mentions(li.t, k) && !mentionsFresh(li.t, r.x.root) {
					e.materialise(key, li.t, li.init)
					again = true
				}
			}
		}
		if again {
			continue
		}
		changed := false
		seen := map[string]bool{}
		var all []string
		byKey := map[string]change{}
		for _, r := range runs {
			if r.x.ctl != cNormal || r.sticky {
				continue
			}
			for ck, ch := range r.changes {
				if !seen[ck] {
					seen[ck] = true
					all = append(all, ck)
					byKey[ck] = ch
				}
			}
		}
		sort.Strings(all)
		for _, ck := range all {
			c := cells[ck]
			if c == nil {
				ch := byKey[ck]
				c = &cell{obj: ch.obj, path: ch.path, init: e.loadAt(e.st.heap[ch.obj], ch.path)}
				cells[ck] = c
				order = append(order, ck)
			}
		}
		sort.Strings(order)
		// counters and headers first: what is written where depends on them
		for _, ck := range order {
			if !contentCell(cells[ck]) && e.adjust(cells[ck], runs, ck, k, n, over, startObj) {
				changed = true
			}
		}
		if changed {
			continue
		}
		for _, ck := range order {
			if contentCell(cells[ck]) && e.adjust(cells[ck], runs, ck, k, n, over, startObj) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// memory of single iterations that the loop changes in place
	var poisons []poison
	for _, r := range runs {
		for key, obj := range r.x.st.lazy {
			if _, ok := e.st.lazy[key]; ok {
				continue
			}
			li := e.t.lazyInit[key]
			if mentions(li.t, k) && r.x.ctl == cNormal && !sameVal(li.init, r.x.st.heap[obj]) && !r.x.lazyUnchanged(key, obj) {
				poisons = append(poisons, poison{li.t, k, key[:4]})
			}
		}
	}
	// the facts every completed iteration establishes
	fa := &Forall{idx: k, n: k}
	for _, r := range runs {
		if r.x.ctl == cNormal && !r.sticky {
			fa.cases = append(fa.cases, e.pathCond(r.x, k))
		}
	}
	e.buildFills(cells, order, runs, k, startObj)
	final := run(fa, true)
	res := &loopResult{}
	for _, r := range final {
		if r.x.ctl == cNormal && !r.sticky {
			continue
		}
		st := r.x.st
		st.poison = append(append([]poison(nil), st.poison...), poisons...)
		x := loopExit{st: st, ctl: r.x.ctl, sticky: r.sticky}
		if r.x.ctl == cReturn {
			x.ret = r.x.fr().ret
		}
		res.exits = append(res.exits, x)
	}
	st := e.st.clone()
	for _, ck := range order {
		e.setCell(st, cells[ck], n)
	}
	for _, ck := range order {
		for _, nm := range cells[ck].names {
			st.assume(e.cntZero(nm, over))
		}
	}
	st.fas = append(st.fas, &Forall{idx: k, n: n, cases: fa.cases})
	st.poison = append(append([]poison(nil), st.poison...), poisons...)
	for _, r := range final {
		if r.x.st.nextObj > st.nextObj {
			st.nextObj = r.x.st.nextObj
		}
		if len(r.x.st.events) > len(e.st.events) && r.x.ctl == cNormal {
			st.events = append(append([]string(nil), e.st.events...), "use")
		}
	}
	res.normal = st
	return res
}

func mentionsFresh(t *Term, root int) bool {
	tag := fmt.Sprintf("#%d:", root)
	if strings.Contains(t.name, tag) {
		return true
	}
	for _, a := range t.args {
		if mentionsFresh(a, root) {
			return true
		}
	}
	return false
}

// pathCond is what an iteration that took path x established beyond the facts before the loop.
func (e *Exec) pathCond(x *Exec, k *Term) Cond {
	var c Cond
	for _, p := range x.st.pc {
		if !e.st.pcset[p.id] {
			c.ts = append(c.ts, p)
		}
	}
	base := map[*Forall]bool{}
	for _, f := range e.st.fas {
		base[f] = true
	}
	for _, f := range x.st.fas {
		if !base[f] {
			c.fas = append(c.fas, f)
		}
	}
	return c
}

// noopAfter: once the visitor has recorded an error, every later call leaves the state alone.
func (e *Exec) noopAfter(x *Exec, n, k *Term, iter func(x *Exec, k *Term), startObj int) bool {
	b := e.b()
	st := x.st.clone()
	e.nfresh++
	k2 := b.App(fmt.Sprintf("k'#%s%d", e.trace(), e.nfresh), SInt, e.loopIdx...)
	st.assume(b.Lt(k, k2))
	st.assume(b.Lt(k2, n))
	e.t.quiet++
	defer func() { e.t.quiet-- }()
	exs := e.t.explore(st, x, func(y *Exec) {
		y.loopIdx = append(append([]*Term(nil), y.loopIdx...), k2)
		iter(y, k2)
	})
	for _, y := range exs {
		if y.ctl != cNormal && y.ctl != cContinue {
			return false
		}
		ch := map[string]change{}
		for obj := 1; obj < startObj; obj++ {
			diffVal(st.heap[obj], y.st.heap[obj], obj, nil, e, ch)
		}
		if len(ch) > 0 {
			return false
		}
	}
	return true
}

func diffVal(o, n Val, obj int, path []Step, e *Exec, out map[string]change) {
	if sameVal(o, n) {
		return
	}
	so, ok1 := o.(*StructV)
	sn, ok2 := n.(*StructV)
	if oq, ok := o.(*Opq); ok && ok2 {
		if x, isS := e.expand(oq).(*StructV); isS {
			so, ok1 = x, true
		}
	}
	if ok1 && ok2 && len(so.f) == len(sn.f) {
		for i := range so.f {
			diffVal(so.f[i], sn.f[i], obj, append(append([]Step(nil), path...), Step{fld: i}), e, out)
		}
		return
	}
	if oq, ok := o.(*Opq); ok {
		if _, isSeq := n.(*Seq); isSeq {
			o = e.expand(oq)
			if sameVal(o, n) {
				return
			}
		}
	}
	out[cellKey(obj, path)] = change{obj, path, o, n}
}

func (e *Exec) cntZero(name, over *Term) *Term {
	b := e.b()
	return b.Eq(b.App("cnt", SInt, name, over, b.Int(0)), b.Int(0))
}

// cntStep unfolds the definition of cnt(name, v, k): how many of the first k members of v have that name.
func (e *Exec) cntStep(name, over, k *Term) *Term {
	b := e.b()
	is := b.Eq(b.App("jkey", SStr, over, k), name)
	nx := b.App("cnt", SInt, name, over, b.Add(k, b.Int(1)))
	cur := b.App("cnt", SInt, name, over, k)
	return b.And(b.Implies(is, b.Eq(nx, b.Add(cur, b.Int(1)))), b.Implies(b.Not(is), b.Eq(nx, cur)))
}

func contentCell(c *cell) bool {
	switch c.init.(type) {
	case *Seq, *MapC, *WriterV:
		return true
	}
	return false
}

func (e *Exec) setCell(st *State, c *cell, k *Term) {
	if c.at == nil {
		return
	}
	v := c.at(k)
	if len(c.path) == 0 {
		st.heap[c.obj] = v
		return
	}
	x := &Exec{t: e.t, st: st, loopIdx: e.loopIdx, frames: e.frames}
	st.heap[c.obj] = x.storeAt(st.heap[c.obj], c.path, v)
}

// adjust makes the candidate invariant of a cell agree with what the iterations do; it reports a change.
func (e *Exec) adjust(c *cell, runs []iterRes, ck string, k, n, over *Term, startObj int) bool {
	var outs []Val
	var xs []*Exec
	for _, r := range runs {
		if r.x.ctl != cNormal || r.sticky {
			continue
		}
		xs = append(xs, r.x)
		if ch, ok := r.changes[ck]; ok {
			outs = append(outs, ch.new)
		} else {
			outs = append(outs, nil)
		}
	}
	if debugLoops {
		for i, o := range outs {
			fmt.Printf("LOOP cell %s try %d fill %q run %d: %T %s\n", ck, c.tried, c.fill, i, o, dumpVal(o))
		}
	}
	if c.at != nil && e.holds(c, outs, xs, k, over) {
		return false
	}
	for {
		c.tried++
		if e.propose(c, c.tried, outs, xs, k, n, over, startObj) {
			return true
		}
		if c.tried > 20 {
			panic(unsupported("no invariant for a loop variable"))
		}
	}
}

// holds: does every iteration take the candidate at k to the candidate at k+1?
func (e *Exec) holds(c *cell, outs []Val, xs []*Exec, k, over *Term) bool {
	b := e.b()
	k1 := b.Add(k, b.Int(1))
	for i, o := range outs {
		cur := c.at(k)
		if o == nil {
			o = cur
		}
		switch c.fill {
		case "any":
			continue
		case "seq", "map", "writer", "append":
			if !e.extends(c, cur, o, xs[i], k) {
				return false
			}
			continue
		}
		want := c.at(k1)
		if !e.eqCell(xs[i], o, want) {
			return false
		}
	}
	return true
}

func (e *Exec) eqCell(x *Exec, o, want Val) bool {
	if sameVal(o, want) {
		return true
	}
	switch a := o.(type) {
	case *Term:
		w, ok := want.(*Term)
		return ok && a.sort == w.sort && x.prove(e.b().Eq(a, w))
	case *SliceV:
		w, ok := want.(*SliceV)
		b := e.b()
		return ok && a.arr == w.arr && samePath(a.apath, w.apath) && x.prove(b.And(b.Eq(a.nil_, w.nil_), b.Eq(a.len, w.len), b.Eq(a.cap, w.cap), b.Eq(a.off, w.off)))
	case *Seq:
		w, ok := want.(*Seq)
		if !ok || a.n != w.n || a.org != w.org || a.zero != w.zero {
			return false
		}
		// counters: constant number of entries
		if !a.n.isInt() || a.n.val.Int64() > 512 {
			return false
		}
		for i := int64(0); i < a.n.val.Int64(); i++ {
			p, q := e.constEntry(a, i), e.constEntry(w, i)
			if p == nil || q == nil || !x.prove(e.b().Eq(p, q)) {
				return false
			}
		}
		return true
	}
	return false
}

// constEntry reads entry i of an array of integers all of whose writes are at constant indexes.
func (e *Exec) constEntry(s *Seq, i int64) *Term {
	for j := len(s.over) - 1; j >= 0; j-- {
		w := s.over[j]
		if w.fill || !w.i.isInt() {
			return nil
		}
		if w.i.val.Int64() == i {
			t, _ := w.v.(*Term)
			return t
		}
	}
	if s.zero {
		if z, ok := e.zeroVal(s.elem).(*Term); ok {
			return z
		}
	}
	return nil
}

// extends: the iteration only adds to what the cell holds.
func (e *Exec) extends(c *cell, cur, o Val, x *Exec, k *Term) bool {
	_, ok := e.added(c, cur, o, x, k)
	return ok
}

type addition struct {
	segs []Seg
	ops  []MapOp
	v    Val // array element; nil: not written
}

func (e *Exec) added(c *cell, cur, o Val, x *Exec, k *Term) (addition, bool) {
	b := e.b()
	switch c.fill {
	case "writer":
		p, q := cur.(*WriterV), o.(*WriterV)
		if len(q.segs) < len(p.segs) || !sameVal(p.err, q.err) {
			return addition{}, false
		}
		for i := range p.segs {
			if !sameSeg(p.segs[i], q.segs[i]) {
				return addition{}, false
			}
		}
		return addition{segs: q.segs[len(p.segs):]}, true
	case "map":
		p, q := cur.(*MapC), o.(*MapC)
		if len(q.ops) < len(p.ops) || p.org != q.org {
			return addition{}, false
		}
		for i := range p.ops {
			if p.ops[i].kind != q.ops[i].kind || p.ops[i].fold != q.ops[i].fold || !sameVal(p.ops[i].k, q.ops[i].k) || !sameVal(p.ops[i].v, q.ops[i].v) {
				return addition{}, false
			}
		}
		return addition{ops: q.ops[len(p.ops):]}, true
	case "seq", "append":
		var p, q *Seq
		if c.fill == "append" {
			ps, qs := cur.(*SliceV), o.(*SliceV)
			if qs.len != b.Add(ps.len, c.step) && !x.prove(b.Eq(qs.len, b.Add(ps.len, c.step))) {
				return addition{}, false
			}
			p, q = ps.seqIn(e, x), x.seqOf(qs)
		} else {
			p, q = cur.(*Seq), o.(*Seq)
		}
		if len(q.over) < len(p.over) || p.org != q.org || p.zero != q.zero || p.jv != q.jv || p.hv != q.hv {
			return addition{}, false
		}
		for i := range p.over {
			u, w := p.over[i], q.over[i]
			if u.fill != w.fill || u.i != w.i || u.idx != w.idx || u.lo != w.lo || u.n != w.n {
				return addition{}, false
			}
		}
		extra := q.over[len(p.over):]
		if len(extra) == 0 {
			return addition{}, true
		}
		at := b.Add(c.lo, k)
		var v Val
		for _, w := range extra {
			if w.fill || w.i != at && !x.prove(b.Eq(w.i, at)) {
				return addition{}, false
			}
			v = w.v
		}
		return addition{v: v}, true
	}
	return addition{}, false
}

func (s *SliceV) seqIn(e, x *Exec) *Seq {
	if s.arr != 0 {
		return x.loadAt(x.st.heap[s.arr], s.apath).(*Seq)
	}
	return s.seq
}

// propose sets the next candidate invariant for a cell.
func (e *Exec) propose(c *cell, try int, outs []Val, xs []*Exec, k, n, over *Term, startObj int) bool {
	b := e.b()
	if o, ok := c.init.(*Opq); ok {
		if _, isA := under(o.T).(*types.Array); isA {
			c.init = e.force(o)
		}
	}
	init := c.init
	var cur Val
	if c.at != nil {
		cur = c.at(k)
	} else {
		cur = init
	}
	switch iv := init.(type) {
	case *Term:
		switch try {
		case 1: // set to the same value by every iteration
			var v *Term
			for _, o := range outs {
				t, ok := o.(*Term)
				if !ok || v != nil && v != t || mentions(t, k) {
					return false
				}
				v = t
			}
			if v == nil {
				return false
			}
			c.at = func(k *Term) Val { return b.Ite(b.Eq(k, b.Int(0)), iv, v) }
			return true
		case 2: // grows by a constant
			if iv.sort != SInt {
				return false
			}
			ct, ok := cur.(*Term)
			if !ok {
				return false
			}
			var d *Term
			for _, o := range outs {
				t := ct
				if o != nil {
					t, ok = o.(*Term)
					if !ok {
						return false
					}
				}
				dd := b.Sub(t, ct)
				if !dd.isInt() || d != nil && d != dd {
					return false
				}
				d = dd
			}
			if d == nil {
				return false
			}
			c.at = func(k *Term) Val { return b.Add(iv, b.Mul(d, k)) }
			return true
		case 3:
			e.nfresh++
			nm := fmt.Sprintf("hv#%s%d", e.trace(), e.nfresh)
			c.fill = "any"
			idx := e.loopIdx
			c.at = func(k *Term) Val {
				return b.Ite(b.Eq(k, b.Int(0)), iv, b.App(nm, iv.sort, append(append([]*Term(nil), idx...), k)...))
			}
			return true
		}
		return false
	case *ErrV:
		if try == 1 {
			e.nfresh++
			nm := fmt.Sprintf("hverr#%s%d", e.trace(), e.nfresh)
			c.fill = "any"
			idx := e.loopIdx
			c.at = func(k *Term) Val {
				as := append(append([]*Term(nil), idx...), k)
				return &ErrV{nil_: b.Ite(b.Eq(k, b.Int(0)), iv.nil_, b.App(nm, SBool, as...)), org: b.App(nm+".org", SU, as...), desc: "error of an earlier iteration"}
			}
			return true
		}
		return false
	case *SliceV:
		switch try {
		case 1:
			cs, ok := cur.(*SliceV)
			if !ok {
				return false
			}
			var d *Term
			app := false
			for _, o := range outs {
				s := cs
				if o != nil {
					s, ok = o.(*SliceV)
					if !ok {
						return false
					}
				}
				if s.arr != iv.arr {
					if !s.appended {
						return false
					}
					app = true
				}
				dd := b.Sub(s.len, cs.len)
				if d != nil && d != dd || mentions(dd, k) {
					return false
				}
				d = dd
			}
			if d == nil {
				return false
			}
			if app {
				if !d.isInt() || d.val.Int64() != 1 {
					return false
				}
				c.fill, c.step = "append", d
				base := e.seqOf(iv)
				off := iv.off
				ln := iv.len
				c.lo = ln
				if !(off.isInt() && off.val.Sign() == 0) {
					base = &Seq{n: ln, elem: iv.elem, win: &seqWin{base, off}}
				}
				ph := &Havoc{"an element of an earlier iteration"}
				c.at = func(k *Term) Val {
					q := *base
					q.n = b.Add(ln, k)
					q.over = append(append([]seqW(nil), base.over...), seqW{fill: true, idx: k, lo: ln, n: k, v: ph})
					return &SliceV{nil_: b.And(iv.nil_, b.Eq(k, b.Int(0))), len: b.Add(ln, k), cap: b.Add(ln, k), off: b.Int(0), seq: &q, elem: iv.elem, appended: true}
				}
				return true
			}
			c.at = func(k *Term) Val {
				s := *iv
				s.len = b.Add(iv.len, b.Mul(d, k))
				return &s
			}
			return true
		}
	case *Seq:
		switch try {
		case 1: // written at consecutive indexes
			cs, ok := cur.(*Seq)
			if !ok {
				return false
			}
			var lo *Term
			for _, o := range outs {
				if o == nil {
					continue
				}
				s, ok := o.(*Seq)
				if !ok || len(s.over) <= len(cs.over) {
					return false
				}
				for _, w := range s.over[len(cs.over):] {
					if w.fill {
						return false
					}
					d := b.Sub(w.i, k)
					if mentions(d, k) || lo != nil && lo != d {
						return false
					}
					lo = d
				}
			}
			if lo == nil {
				return false
			}
			c.fill, c.lo = "seq", lo
			ph := &Havoc{"an element of an earlier iteration"}
			c.at = func(k *Term) Val {
				q := *iv
				q.over = append(append([]seqW(nil), iv.over...), seqW{fill: true, idx: k, lo: lo, n: k, v: ph})
				return &q
			}
			return true
		case 2: // counters of member names
			if over == nil || !iv.n.isInt() || !iv.zero && len(iv.over) == 0 {
				return false
			}
			names := map[int64]*Term{}
			for i, o := range outs {
				if o == nil {
					continue
				}
				s, ok := o.(*Seq)
				if !ok {
					return false
				}
				var nm *Term
				for _, p := range xs[i].st.pc {
					if p.op == "=" && p.args[0].sort == SStr {
						for s := 0; s < 2; s++ {
							if p.args[s].op == "app" && p.args[s].name == "jkey" && p.args[1-s].op == "str" {
								nm = p.args[1-s]
							}
						}
					}
				}
				if nm == nil || len(s.over) == 0 {
					return false
				}
				for _, w := range s.over {
					if w.fill || !w.i.isInt() {
						return false
					}
					if p := names[w.i.val.Int64()]; p != nil && p != nm {
						// only the entry written last on this path counts
						continue
					}
				}
				w := s.over[len(s.over)-1]
				names[w.i.val.Int64()] = nm
			}
			if len(names) == 0 {
				return false
			}
			c.names = names
			c.at = func(k *Term) Val {
				q := *iv
				q.over = append([]seqW(nil), iv.over...)
				var is []int64
				for i := range names {
					is = append(is, i)
				}
				sort.Slice(is, func(a, b int) bool { return is[a] < is[b] })
				for _, i := range is {
					q.over = append(q.over, seqW{i: b.Int(i), v: b.App("cnt", SInt, names[i], over, k)})
				}
				return &q
			}
			return true
		case 3:
			e.nfresh++
			c.names = nil
			c.fill = "any"
			nm := fmt.Sprintf("hvarr#%s%d", e.trace(), e.nfresh)
			c.at = func(k *Term) Val {
				return &Seq{n: iv.n, elem: iv.elem, org: b.App(nm, SU, k)}
			}
			return true
		}
		return false
	case *MapC:
		if try == 1 {
			c.fill = "map"
			ph := &Fold{idx: k, n: k}
			c.at = func(k *Term) Val {
				return &MapC{org: iv.org, ops: append(append([]MapOp(nil), iv.ops...), MapOp{kind: "fold", fold: ph})}
			}
			return true
		}
		if try == 2 {
			e.nfresh++
			nm := fmt.Sprintf("hvmap#%s%d", e.trace(), e.nfresh)
			c.fill = "any"
			c.at = func(k *Term) Val { return &MapC{org: b.App(nm, SU, k)} }
			return true
		}
		return false
	case *WriterV:
		if try == 1 {
			c.fill = "writer"
			ph := &SegLoop{idx: k, n: k}
			c.at = func(k *Term) Val {
				return &WriterV{err: iv.err, segs: append(append([]Seg(nil), iv.segs...), Seg{kind: "loop", loop: ph})}
			}
			return true
		}
		if try == 2 {
			c.fill = "any"
			e.nfresh++
			nm := fmt.Sprintf("hvw#%s%d", e.trace(), e.nfresh)
			c.at = func(k *Term) Val {
				return &WriterV{err: &ErrV{nil_: b.App(nm, SBool, k), desc: "recorded"}, segs: append(append([]Seg(nil), iv.segs...), Seg{kind: "opaque", s: nm})}
			}
			return true
		}
		return false
	case *Opq:
		if try <= 2 {
			e.nfresh++
			nm := fmt.Sprintf("hvq#%s%d", e.trace(), e.nfresh)
			c.fill = "any"
			c.at = func(k *Term) Val { return &Opq{b.App(nm, SU, k), iv.T} }
			return true
		}
		return false
	}
	c.fill = "any"
	why := fmt.Sprintf("a variable of kind %T changed by a loop", init)
	c.at = func(k *Term) Val { return &Havoc{why} }
	return true
}

// buildFills replaces the placeholders by what the iterations write.
func (e *Exec) buildFills(cells map[string]*cell, order []string, runs []iterRes, k *Term, startObj int) {
	b := e.b()
	for _, ck := range order {
		c := cells[ck]
		switch c.fill {
		case "seq", "map", "writer", "append":
		default:
			continue
		}
		var cv CaseV
		cv.total = true
		fold := &Fold{idx: k}
		loop := &SegLoop{idx: k}
		for _, r := range runs {
			if r.x.ctl != cNormal || r.sticky {
				continue
			}
			cur := c.at(k)
			o := cur
			if ch, ok := r.changes[ck]; ok {
				o = ch.new
			}
			ad, _ := e.added(c, cur, o, r.x, k)
			cond := b.And(e.pathCond(r.x, k).ts...)
			switch c.fill {
			case "seq", "append":
				v := ad.v
				if v == nil {
					var sq *Seq
					if c.fill == "seq" {
						sq = c.init.(*Seq)
					}
					if sq == nil {
						v = &Havoc{"not written"}
					} else {
						v = r.x.rawAt(sq, b.Add(c.lo, k))
					}
				}
				cv.cases = append(cv.cases, CaseE{cond, r.x.closeVal(v, startObj)})
			case "map":
				var ops []MapOp
				for _, op := range ad.ops {
					if op.v != nil {
						op.v = r.x.closeVal(op.v, startObj)
					}
					ops = append(ops, op)
				}
				fold.cases = append(fold.cases, FoldCase{cond, ops})
			case "writer":
				loop.cases = append(loop.cases, SegCase{cond, ad.segs})
			}
		}
		switch c.fill {
		case "seq":
			iv, lo := c.init.(*Seq), c.lo
			c.at = func(n *Term) Val {
				q := *iv
				q.over = append(append([]seqW(nil), iv.over...), seqW{fill: true, idx: k, lo: lo, n: n, v: &cv})
				return &q
			}
		case "append":
			old := c.at
			c.at = func(n *Term) Val {
				s := *(old(n).(*SliceV))
				q := *s.seq
				q.over = append([]seqW(nil), q.over...)
				q.over[len(q.over)-1] = seqW{fill: true, idx: k, lo: c.lo, n: n, v: &cv}
				s.seq = &q
				return &s
			}
		case "map":
			iv := c.init.(*MapC)
			c.at = func(n *Term) Val {
				f := *fold
				f.n = n
				return &MapC{org: iv.org, ops: append(append([]MapOp(nil), iv.ops...), MapOp{kind: "fold", fold: &f})}
			}
		case "writer":
			iv := c.init.(*WriterV)
			c.at = func(n *Term) Val {
				l := *loop
				l.n = n
				return &WriterV{err: iv.err, segs: append(append([]Seg(nil), iv.segs...), Seg{kind: "loop", loop: &l})}
			}
		}
	}
}

// rawAt reads an array entry outside any explored path (no decisions).
func (e *Exec) rawAt(s *Seq, i *Term) Val {
	for k := len(s.over) - 1; k >= 0; k-- {
		if s.over[k].fill {
			return &Havoc{"an element of an earlier loop"}
		}
		if s.over[k].i == i {
			return s.over[k].v
		}
		if !e.prove(e.b().Not(e.b().Eq(s.over[k].i, i))) {
			return &Havoc{"array element"}
		}
	}
	q := *s
	q.over = nil
	if q.spl != nil || q.win != nil {
		return &Havoc{"array element"}
	}
	return e.seqAt(&q, i)
}

// ---------------------------------------------------------------- loop statements

func (e *Exec) rangeStmt(s *ast.RangeStmt) {
	b := e.b()
	mark := len(e.scope)
	var kl, vl func(x *Exec, v Val)
	bindVar := func(ex ast.Expr) func(x *Exec, v Val) {
		if ex == nil {
			return nil
		}
		id, ok := ex.(*ast.Ident)
		if ok && id.Name == "_" {
			return nil
		}
		if s.Tok == token.DEFINE {
			o := e.info().Defs[id]
			e.declare(o, e.zeroVal(o.Type()))
			obj := e.st.env[o]
			return func(x *Exec, v Val) { x.st.heap[obj] = v }
		}
		l := e.addr(ex)
		return func(x *Exec, v Val) { x.store(l, v) }
	}
	T := e.typeOf(s.X)
	body := func(x *Exec) { x.block(s.Body.List) }
	switch u := under(T).(type) {
	case *types.Slice:
		v := e.force(e.eval(s.X))
		if _, ok := v.(*BytesV); ok {
			panic(unsupported("range over bytes"))
		}
		sl := e.slice(v)
		kl, vl = bindVar(s.Key), bindVar(s.Value)
		e.loop(s, sl.len, func(x *Exec, k *Term) {
			if kl != nil {
				kl(x, k)
			}
			if vl != nil {
				vl(x, x.sliceAt(sl, k))
			}
			body(x)
		}, false, nil)
	case *types.Array, *types.Pointer:
		var sq *Seq
		var get func(x *Exec, k *Term) Val
		var n *Term
		if p, ok := u.(*types.Pointer); ok {
			a := under(p.Elem()).(*types.Array)
			n = b.Int(a.Len())
			l := e.deref(e.eval(s.X), s.Pos())
			get = func(x *Exec, k *Term) Val { return x.load(l.add(Step{idx: k})) }
		} else {
			n = b.Int(u.(*types.Array).Len())
			if s.Value != nil {
				sq = e.force(e.eval(s.X)).(*Seq)
			}
			get = func(x *Exec, k *Term) Val { return x.force1(x.seqAt(sq, k)) }
		}
		kl, vl = bindVar(s.Key), bindVar(s.Value)
		e.loop(s, n, func(x *Exec, k *Term) {
			if kl != nil {
				kl(x, k)
			}
			if vl != nil {
				vl(x, get(x, k))
			}
			body(x)
		}, false, nil)
	case *types.Map:
		m := e.force(e.eval(s.X)).(*MapV)
		mc := e.mapC(m)
		if mc.org == nil && len(mc.ops) == 0 {
			return
		}
		if len(mc.ops) > 0 {
			panic(unsupported("range over a changed map"))
		}
		kl, vl = bindVar(s.Key), bindVar(s.Value)
		org := mc.org
		n := b.App("mlen", SInt, org)
		e.loop(s, n, func(x *Exec, k *Term) {
			if kl != nil {
				kl(x, x.t.proj2(org, k, "mkey", u.Key()))
			}
			if vl != nil {
				vl(x, x.t.proj2(org, k, "mval", u.Elem()))
			}
			body(x)
		}, false, nil)
	case *types.Basic:
		if u.Info()&types.IsInteger == 0 {
			panic(unsupported("range over %s", T))
		}
		n := e.term(e.eval(s.X))
		kl = bindVar(s.Key)
		e.loop(s, n, func(x *Exec, k *Term) {
			if kl != nil {
				kl(x, k)
			}
			body(x)
		}, false, nil)
	default:
		panic(unsupported("range over %s", T))
	}
	e.leave(mark)
}

func (e *Exec) forStmt(s *ast.ForStmt) {
	b := e.b()
	mark := len(e.scope)
	as, ok := s.Init.(*ast.AssignStmt)
	inc, ok2 := s.Post.(*ast.IncDecStmt)
	cond, ok3 := s.Cond.(*ast.BinaryExpr)
	if !ok || !ok2 || !ok3 || as.Tok != token.DEFINE || len(as.Lhs) != 1 || inc.Tok != token.INC {
		panic(unsupported("for statement"))
	}
	e.stmt(as)
	o := e.info().Defs[as.Lhs[0].(*ast.Ident)]
	if id, ok := inc.X.(*ast.Ident); !ok || e.objOf(id) != o {
		panic(unsupported("for statement"))
	}
	obj := e.st.env[o]
	a := e.term(e.st.heap[obj])
	var bound *Term
	isVar := func(x ast.Expr) bool {
		id, ok := ast.Unparen(x).(*ast.Ident)
		return ok && e.objOf(id) == o
	}
	switch {
	case cond.Op == token.LSS && isVar(cond.X):
		bound = e.term(e.eval(cond.Y))
	case cond.Op == token.GTR && isVar(cond.Y):
		bound = e.term(e.eval(cond.X))
	case cond.Op == token.LEQ && isVar(cond.X):
		bound = b.Add(e.term(e.eval(cond.Y)), b.Int(1))
	case cond.Op == token.NEQ && isVar(cond.X):
		bound = e.term(e.eval(cond.Y))
		e.require(b.Le(a, bound), "loop terminates", "panic", s.Pos())
	default:
		panic(unsupported("for condition"))
	}
	n := b.Sub(bound, a)
	if !e.branch(b.Le(b.Int(0), n)) {
		e.leave(mark)
		return
	}
	e.loop(s, n, func(x *Exec, k *Term) {
		x.st.heap[obj] = b.Add(a, k)
		c := x.term(x.eval(s.Cond))
		if !x.prove(c) {
			panic(unsupported("loop bound changes"))
		}
		x.block(s.Body.List)
		if x.ctl == cContinue || x.ctl == cNormal {
			if t, ok := x.st.heap[obj].(*Term); !ok || t != b.Add(a, k) {
				panic(unsupported("loop variable changed in the body"))
			}
		}
	}, false, nil)
	e.leave(mark)
}

// visit is fastjson's Object.Visit: the function is called for every member in order.
func (e *Exec) visit(v *Term, lit *ast.FuncLit, c *ast.CallExpr) {
	b := e.b()
	n := b.App("jolen", SInt, v)
	e.loop(c, n, func(x *Exec, k *Term) {
		key := &BytesV{nil_: b.F, t: b.App("jkey", SStr, v, k), borrowed: true}
		val := b.App("jval", SJV, v, k)
		x.callLit(lit, []Val{key, val})
	}, true, v)
}
