package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sorts of the assertion language.
//
//	Bool, Int  - built in (Go integers are mathematical integers constrained to the range of their type;
//	             conversions to a narrower type wrap explicitly)
//	Str        - texts / byte contents, uninterpreted apart from literals being distinct
//	JV         - *fastjson.Value, uninterpreted
//	U          - any other Go value (opaque)
//	F64, F32   - IEEE floating point
type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "Str"
	SJV   Sort = "JV"
	SU    Sort = "U"
	SF64  Sort = "F64"
	SF32  Sort = "F32"
)

// Term is a hash-consed assertion-language term.
type Term struct {
	op   string // "app","int","true","false","not","and","or","=","ite","+","<=","<","*c","mod","fp.*", "str"
	name string // function name, literal
	args []*Term
	sort Sort
	id   int
	val  *big.Int
	key  string
	fn   string // memoized SMT name
	smt  string // memoized SMT text
}

// Bank owns the terms of one verification task.
type Bank struct {
	tab  map[string]*Term
	all  []*Term
	T, F *Term
}

func NewBank() *Bank {
	b := &Bank{tab: map[string]*Term{}}
	b.T = b.mk("true", "", SBool, nil)
	b.F = b.mk("false", "", SBool, nil)
	return b
}

func (b *Bank) mk(op, name string, s Sort, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t := b.tab[k]; t != nil {
		return t
	}
	t := &Term{op: op, name: name, args: args, sort: s, id: len(b.all) + 1, key: k}
	b.tab[k] = t
	b.all = append(b.all, t)
	return t
}

func (b *Bank) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}

func (b *Bank) Int(n int64) *Term { return b.Big(big.NewInt(n)) }

func (b *Bank) Big(n *big.Int) *Term {
	t := b.mk("int", n.String(), SInt, nil)
	if t.val == nil {
		t.val = new(big.Int).Set(n)
	}
	return t
}

// Str is a text literal.
func (b *Bank) Str(s string) *Term { return b.mk("str", s, SStr, nil) }

func (b *Bank) App(name string, s Sort, args ...*Term) *Term {
	return b.mk("app", name, s, args)
}

func (b *Bank) FConst(s Sort, bits string) *Term { return b.mk("fconst", bits, s, nil) }

func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }
func (t *Term) isInt() bool   { return t.op == "int" }

func (b *Bank) Not(t *Term) *Term {
	switch t.op {
	case "true":
		return b.F
	case "false":
		return b.T
	case "not":
		return t.args[0]
	}
	return b.mk("not", "", SBool, []*Term{t})
}

func (b *Bank) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isTrue() || seen[t.id] {
			return true
		}
		if t.isFalse() || seen[b.Not(t).id] {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return b.F
		}
	}
	switch len(out) {
	case 0:
		return b.T
	case 1:
		return out[0]
	}
	return b.mk("and", "", SBool, out)
}

func (b *Bank) Or(ts ...*Term) *Term {
	var ns []*Term
	for _, t := range ts {
		ns = append(ns, b.Not(t))
	}
	return b.Not(b.And(ns...))
}

func (b *Bank) Implies(a, c *Term) *Term { return b.Or(b.Not(a), c) }

func (b *Bank) Ite(c, x, y *Term) *Term {
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x.sort == SBool {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return b.Not(c)
		}
	}
	return b.mk("ite", "", x.sort, []*Term{c, x, y})
}

func (b *Bank) Eq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.sort != y.sort {
		panic(unsupported(fmt.Sprintf("equality of different sorts %s/%s: %s = %s", x.sort, y.sort, x, y)))
	}
	if x.op == "int" && y.op == "int" || x.op == "str" && y.op == "str" {
		return b.F
	}
	if x.sort == SBool {
		switch {
		case x.isTrue():
			return y
		case y.isTrue():
			return x
		case x.isFalse():
			return b.Not(y)
		case y.isFalse():
			return b.Not(x)
		}
	}
	if x.sort == SInt {
		d := b.Sub(x, y)
		if d.isInt() {
			return b.Bool(d.val.Sign() == 0)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk("=", "", SBool, []*Term{x, y})
}

// linear normal form: constant + sum of coefficient*atom
func (b *Bank) lin(t *Term, coef *big.Int, acc map[int]*big.Int, atoms map[int]*Term, k *big.Int) {
	switch t.op {
	case "int":
		k.Add(k, new(big.Int).Mul(coef, t.val))
	case "+":
		for _, a := range t.args {
			b.lin(a, coef, acc, atoms, k)
		}
	case "*c":
		b.lin(t.args[1], new(big.Int).Mul(coef, t.args[0].val), acc, atoms, k)
	default:
		if acc[t.id] == nil {
			acc[t.id] = new(big.Int)
		}
		acc[t.id].Add(acc[t.id], coef)
		atoms[t.id] = t
	}
}

func (b *Bank) fromLin(acc map[int]*big.Int, atoms map[int]*Term, k *big.Int) *Term {
	var ids []int
	for id, c := range acc {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var parts []*Term
	for _, id := range ids {
		c := acc[id]
		if c.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, atoms[id])
		} else {
			parts = append(parts, b.mk("*c", "", SInt, []*Term{b.Big(c), atoms[id]}))
		}
	}
	if k.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, b.Big(k))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return b.mk("+", "", SInt, parts)
}

func (b *Bank) Add(x, y *Term) *Term {
	acc, at, k := map[int]*big.Int{}, map[int]*Term{}, new(big.Int)
	b.lin(x, big.NewInt(1), acc, at, k)
	b.lin(y, big.NewInt(1), acc, at, k)
	return b.fromLin(acc, at, k)
}

func (b *Bank) Sub(x, y *Term) *Term {
	acc, at, k := map[int]*big.Int{}, map[int]*Term{}, new(big.Int)
	b.lin(x, big.NewInt(1), acc, at, k)
	b.lin(y, big.NewInt(-1), acc, at, k)
	return b.fromLin(acc, at, k)
}

func (b *Bank) MulC(c *big.Int, x *Term) *Term {
	acc, at, k := map[int]*big.Int{}, map[int]*Term{}, new(big.Int)
	b.lin(x, c, acc, at, k)
	return b.fromLin(acc, at, k)
}

func (b *Bank) Mul(x, y *Term) *Term {
	if x.isInt() {
		return b.MulC(x.val, y)
	}
	if y.isInt() {
		return b.MulC(y.val, x)
	}
	return b.mk("*", "", SInt, []*Term{x, y})
}

func (b *Bank) Le(x, y *Term) *Term {
	d := b.Sub(y, x)
	if d.isInt() {
		return b.Bool(d.val.Sign() >= 0)
	}
	if x.op == "app" && x.name == "strlen" && y.isInt() && y.val.Sign() < 0 {
		return b.F
	}
	return b.mk("<=", "", SBool, []*Term{x, y})
}

func (b *Bank) Lt(x, y *Term) *Term { return b.Not(b.Le(y, x)) }

// Mod is the mathematical modulus by a positive constant.
func (b *Bank) Mod(x *Term, m *big.Int) *Term {
	if x.isInt() {
		return b.Big(new(big.Int).Mod(x.val, m))
	}
	return b.mk("mod", "", SInt, []*Term{x, b.Big(m)})
}

// Subst replaces the atom from by to.
func (b *Bank) Subst(t, from, to *Term) *Term {
	memo := map[int]*Term{}
	return b.subst(t, from, to, memo)
}

func (b *Bank) subst(t, from, to *Term, memo map[int]*Term) *Term {
	if t == from {
		return to
	}
	if len(t.args) == 0 {
		return t
	}
	if r := memo[t.id]; r != nil {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = b.subst(a, from, to, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = b.rebuild(t, args)
	}
	memo[t.id] = r
	return r
}

func (b *Bank) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return b.Not(args[0])
	case "and":
		return b.And(args...)
	case "=":
		return b.Eq(args[0], args[1])
	case "ite":
		return b.Ite(args[0], args[1], args[2])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = b.Add(r, a)
		}
		return r
	case "*c":
		return b.MulC(args[0].val, args[1])
	case "<=":
		return b.Le(args[0], args[1])
	case "mod":
		return b.Mod(args[0], args[1].val)
	}
	return b.mk(t.op, t.name, t.sort, args)
}

func mentions(t, x *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if len(t.args) == 0 || seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) String() string {
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		return t.name
	case "str":
		return strconv.Quote(t.name)
	case "fconst":
		return "fp:" + t.name
	case "app":
		if len(t.args) == 0 {
			return t.name
		}
		return t.name + "(" + joinTerms(t.args, ", ") + ")"
	case "not":
		return "!" + t.args[0].String()
	case "and":
		return "(" + joinTerms(t.args, " && ") + ")"
	case "*c":
		return t.args[0].String() + "*" + t.args[1].String()
	default:
		if len(t.args) == 2 {
			return "(" + t.args[0].String() + " " + t.op + " " + t.args[1].String() + ")"
		}
		return t.op + "(" + joinTerms(t.args, ", ") + ")"
	}
}

func joinTerms(ts []*Term, sep string) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.String())
	}
	return strings.Join(s, sep)
}
