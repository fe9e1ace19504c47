#!/usr/bin/env python3
"""Writes the n_* groups of the corpus: further hand-made declaration shapes (annotations, names, sizes, defaults, layouts, packages)."""
import os, shutil
root = __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'corpus')
for d in os.listdir(root):
    if d.startswith('n_'): shutil.rmtree(f'{root}/{d}')
def put(group, path, text):
    p = f'{root}/{group}/{path}'
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(text.lstrip('\n'))

# ---- annotations in several lines and spellings
put('n_decl_lines', 't.go', '''
package decl

//json:strict
//json:decode
type A struct {
	X int `json:"x"`
}

//json:decode
//json:strict
type B struct {
	X int `json:"x"`
}

// C is documented
//
//json:strict
//
// and here again
//json:json
type C struct {
	X string `json:"x"`
	Y []int  `json:"y"`
}

//json:json
//json:encode
//json:strict
type D struct {
	X string `json:"x"`
}

//json:
//json:strict
type E struct {
	X string `json:"x"`
}

//json:strict
// json:
type F struct {
	X string `json:"x"`
}

//	json:	strict	,	json
type G struct {
	X string `json:"x"`
}

//   json:Strict
type H struct {
	X string `json:"x"`
}

//json:json, strict, json
type I struct {
	X string `json:"x"`
	L []A1   `json:"l"`
	M map[string]A1 `json:"m"`
	P *A1    `json:"p"`
}

//json:strict
type A1 struct {
	X string `json:"x"`
}

// json:strict and more words
type J struct {
	X string `json:"x"`
}

//json:json
// strict
type K struct {
	X string `json:"x"`
}

//json:json
type (
	L struct {
		X string `json:"x"`
	}

	//json:strict
	M struct {
		X string `json:"x"`
	}
)

type (
	//json:json
	N struct {
		X string `json:"x"`
	}
	//json:strict
	O struct {
		X string `json:"x"`
	}
	P struct {
		X string `json:"x"`
	}
)
''')
# ---- places of the declarations
put('n_decl_places', 't.go', '''
// Package decl has a licence.
package decl

import "fmt"

const limit = 3

var registry = map[string]int{"a": 1}

type iface interface {
	Do() error
}

type fn func(int) string

type ch chan int

// Use is a function with types of its own.
func Use() string {
	type Sub struct {
		Q int
	}
	type Str int
	return fmt.Sprint(Sub{Q: 1}, Str(2), limit, registry)
}

//json:json
type Before struct {
	S Sub `json:"s"`
	T Str `json:"t"`
	L []Sub `json:"l"`
	E Late `json:"e"`
}

//json:strict
type Sub struct {
	A int `json:"a"`
}

type Str string

//json:json
type After struct {
	B Before `json:"b"`
	S *Sub   `json:"s"`
	M map[Str]Before `json:"m"`
}

func (a *After) Extra() int { return limit }

//json:json
type Late []int8
''')
# ---- names of the types
put('n_decl_names', 't.go', '''
package decl

//json:json
type Error struct {
	Error string `json:"error"`
	Code  int    `json:"code"`
}

//json:json
type String string

//json:json
type Value []String

//json:json
type Parser map[String]Error

//json:strict
type value struct {
	A Parser `json:"a"`
	B Value  `json:"b"`
	C String `json:"c"`
	D Error  `json:"d"`
	E *value `json:"e"`
}

//json:json
type X struct {
	Y Y `json:"y"`
}

//json:json
type Y struct {
	X []X `json:"x"`
}

//json:json
type T_1 struct {
	T int `json:"t"`
}

//json:json
type Żółć struct {
	Ż int `json:"ż"`
}

//json:json
type Result struct {
	Result *Result `json:"result"`
	Data   []byte  `json:"data"`
}
''')
# ---- chains of named types
put('n_chain', 't.go', '''
package chain

type S1 S2

type S2 S3

type S3 string

type I1 I2

type I2 uint8

type F1 F2

type F2 float64

type B1 B2

type B2 bool

//json:json
type T1 struct {
	S  S1   `json:"s"`
	I  I1   `json:"i"`
	F  F1   `json:"f"`
	B  B1   `json:"b"`
	PS *S1  `json:"ps"`
	PI *I1  `json:"pi"`
	PB *B1  `json:"pb"`
	SO S1   `json:"so,omitempty"`
	IO I1   `json:"io,omitempty"`
	LS []S1 `json:"ls"`
	LI []I1 `json:"li"`
	LB []B1 `json:"lb"`
	LF []F1 `json:"lf"`
}

//json:json
type T2 struct {
	MS map[string]S1 `json:"ms"`
	MI map[S1]I1     `json:"mi"`
	MF map[S2]F1     `json:"mf"`
	MP map[string]*I1 `json:"mp"`
	D  I1 `json:"d" default:"9"`
	E  S1 `json:"e" default:"e"`
	R  B1 `json:"r,required"`
}

//json:json
type C1 C2

//json:json
type C2 C3

//json:json
type C3 int64

//json:json
type D1 D2

//json:json
type D2 uint64

//json:json
type E1 E2

//json:json
type E2 float32

//json:json
type G1 G2

//json:json
type G2 bool

//json:json
type H1 H2

//json:json
type H2 string

//json:json
type Uses struct {
	C  C1   `json:"c"`
	D  D1   `json:"d"`
	E  E1   `json:"e"`
	G  G1   `json:"g"`
	H  H1   `json:"h"`
	PC *C1  `json:"pc"`
	LD []D1 `json:"ld"`
	LG []G2 `json:"lg"`
	ME map[string]E1 `json:"me"`
	OH H1   `json:"oh,omitempty"`
	OC C2   `json:"oc,omitempty"`
}
''')
# ---- defaults
def defs(group, rows):
    t = 'package defaults\n\n' + rows
    put(group, 't.go', t)
put('n_default', 't.go', '''
package defaults

type Str string

type Num int32

type Flag bool

//json:json
type T1 struct {
	A string `json:"a" default:"say \\"hi\\""`
	B string `json:"b" default:"\\"a\\" \\"b\\" \\"c\\""`
	C string `json:"c" default:"it's"`
	D string `json:"d" default:"100%d %s %%"`
	E string `json:"e" default:"ünïcödé 名"`
	F string `json:"f" default:"  spaces  "`
	G string `json:"g" default:"{\\"json\\":[1,2]}"`
	H string `json:"h" default:"null"`
	I string `json:"i" default:"0"`
	J string `json:"j" default:"true"`
	K string `json:"k" default:","`
	L string `json:"l" default:"a,omitempty"`
	M string `json:"m" default:"-"`
	N string `json:"n" default:"http://host/path?a=b&c=d#e"`
	O string `json:"o" default:"<b>&amp;</b>"`
}

//json:json
type T2 struct {
	A *string `json:"a" default:"say \\"hi\\" and \\"bye\\""`
	B Str     `json:"b" default:"x \\"y\\" \\"z\\""`
	C *Str    `json:"c" default:"z"`
	D *string `json:"d,omitempty" default:"0"`
	E Str     `json:"e,omitempty" default:"false"`
}

//json:json
type T3 struct {
	A int     `json:"a" default:"0"`
	B int     `json:"b" default:"-1"`
	C int64   `json:"c" default:"9223372036854775807"`
	D int64   `json:"d" default:"-9223372036854775808"`
	E uint64  `json:"e" default:"18446744073709551615"`
	F int8    `json:"f" default:"-128"`
	G int8    `json:"g" default:"127"`
	H uint8   `json:"h" default:"255"`
	I int16   `json:"i" default:"-32768"`
	J uint16  `json:"j" default:"65535"`
	K int32   `json:"k" default:"2147483647"`
	L uint32  `json:"l" default:"4294967295"`
	M Num     `json:"m" default:"-7"`
	N *Num    `json:"n" default:"7"`
	O *int8   `json:"o" default:"-128"`
	P *uint64 `json:"p" default:"18446744073709551615"`
	Q *int    `json:"q,omitempty" default:"0"`
	R int     `json:"r" default:"0x1F"`
	S int     `json:"s" default:"1_000"`
}

//json:json
type T4 struct {
	A float64  `json:"a" default:"0"`
	B float64  `json:"b" default:"-0.5"`
	C float64  `json:"c" default:"1e300"`
	D float32  `json:"d" default:"1e-5"`
	E float32  `json:"e" default:"3"`
	F *float64 `json:"f" default:"2.718281828"`
	G *float32 `json:"g" default:"-1.5"`
	H float64  `json:"h,omitempty" default:"1.0"`
	I bool     `json:"i" default:"true"`
	J bool     `json:"j" default:"false"`
	K *bool    `json:"k" default:"false"`
	L *bool    `json:"l" default:"true"`
	M Flag     `json:"m" default:"true"`
	N *Flag    `json:"n" default:"false"`
	O bool     `json:"o,omitempty" default:"true"`
}

//json:strict
type T5 struct {
	A int    `default:"5" json:"a"`
	B string `default:"x" json:"b,omitempty" xml:"b"`
	C bool   `xml:"c" default:"true" json:"c"`
	D uint8  `json:"d" default:"1"`
}
''')
# ---- layouts
L = ['2006-01-02', '2006-01-02 15:04:05', '2006-01-02 15:04:05.000', '2006-01-02T15:04:05', '2006-01-02T15:04:05Z07:00', '20060102', '20060102150405', '01/02/2006', '1/2/06', '02-Jan-2006', '02 Jan 06 15:04 MST', 'Monday, 02-Jan-06 15:04:05 MST', '3:04PM', '15:04', '15:04:05.999999999', 'January 2', '2006', '06.1.2', '2006-002', "15h04'", '2006-01-02T15', 'Z0700 2006',
     'time.Layout', 'time.ANSIC', 'time.UnixDate', 'time.RubyDate', 'time.RFC822', 'time.RFC822Z', 'time.RFC850', 'time.RFC1123', 'time.RFC1123Z', 'time.RFC3339', 'time.RFC3339Nano', 'time.Kitchen', 'time.Stamp', 'time.StampMilli', 'time.StampMicro', 'time.StampNano', 'time.DateTime', 'time.DateOnly', 'time.TimeOnly']
L2 = [' 2006-01-02', '2006-01-02 ', '  15:04 ', 'time.2006.01.02', 'time 15:04', '2006.01.02', '02.01.06', 'Time.2006', 'RFC3339', '2006,01,02', '2006, Jan', '2006%01', '%d 2006', 'é 2006', 'T2006', '2006-01-02T15:04:05.999999999Z07:00', '2006-01-02T15:04:05-07:00', '{2006}', '2006|01', 'Jan _2', '.000', '0', '\u00a02006', '2006-01-02T15:04:05.000000Z']
for k, pick in enumerate([L[:11], L[11:22], L[22:32], L[32:], L2[:12], L2[12:]]):
    t = 'package times\n\nimport "time"\n\n'
    for n, (ty, o) in enumerate([('time.Time', ''), ('*time.Time', ''), ('time.Time', ',omitempty'), ('*time.Time', ',omitempty'), ('time.Time', ',required')]):
        t += f'//json:json\ntype T{n} struct {{\n'
        for i, l in enumerate(pick): t += f'\tF{i} {ty} `json:"f{i}{o}" layout:"{l}"`\n'
        t += '}\n\n'
    put(f'n_time_{k}', 't.go', t)
# ---- names of the members
long_ = [('x' * n) for n in (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300)]
names = ['a', 'A', 'aa', 'aA', 'Aa', 'AA', 'ab', 'abc', 'abcd', 'b', 'ba', '_', '-a', 'a-', 'a_', 'a.b', 'a.b.c', '.', '..', 'a b', ' a', '$', '$id', '@type', '#', 'a/b', '/', '~', 'a~1b', '%', '%s', '%d%', '0', '00', '01', '1', '-1', '1.0', 'null', 'true', 'json', 'omitempty', 'é', 'É', 'e', '名前', '😀', 'ß', 'ſ', 'K', 'a:b', 'a;b', 'a=b', '(a)', '[0]', '{a}', '<a>', '&', '*', '?', '!', '|', '^', '`'][:-1]
def many(pkg, ns, typ='string', ann='strict', tn='T1', opt=''):
    t = f'//json:{ann}\ntype {tn} struct {{\n'
    for i, n in enumerate(ns): t += f'\tF{i} {typ} `json:"{n}{opt}"`\n'
    return t + '}\n\n'
put('n_names', 't.go', 'package names\n\n' + many('names', names) + many('names', names, 'int', 'json', 'T2', ',omitempty') + many('names', long_, '*int', 'strict', 'T3') + many('names', names[:40], '[]int', 'json', 'T4') + many('names', long_[:6] + names[40:], 'map[string]int', 'json', 'T5'))
# ---- numbers of members
def nmem(n, ty=lambda i: 'string'):
    return [f'\tF{i} {ty(i)} `json:"f{i}"`\n' for i in range(n)]
t = 'package wide\n\n'
for n in (65,):
    t += f'//json:strict,decode\ntype W{n} struct {{\n' + ''.join(nmem(n)) + '}\n\n'
for n in (66, 101):
    t += f'//json:encode\ntype E{n} struct {{\n' + ''.join(nmem(n, lambda i: 'bool' if i % 5 else 'string')) + '}\n\n'
put('n_wide', 't.go', t)
# ---- lengths of the arrays
t = 'package arr\n\nimport "time"\n\nconst Size = 5\n\ntype Str string\n\n//json:json\ntype Sub struct {\n\tX int `json:"x"`\n}\n\n'
for n in ('0', '1', '2', '4', '7', '9', '10', '16', '17', '32', '64', '65', '100', 'Size', '0x10'):
    for e, k in (('int', 'I'), ('string', 'S'), ('bool', 'Q'), ('float32', 'F'), ('Str', 'N')):
        if n in ('0',) or (e != 'int' and n not in ('1', '2', '16', '100', 'Size')): continue
        t += f'//json:json\ntype {k}{n} [{n}]{e}\n\n'
t += '//json:json\ntype T1 struct {\n' + ''.join(f'\tF{n} [{n}]{e} `json:"f{n}"`\n' for n, e in (('1', 'int'), ('2', 'string'), ('4', 'Str'), ('5', 'bool'), ('16', 'uint8'), ('Size', 'float64'), ('100', 'int8'), ('0x10', 'int'))) + '}\n\n'
t += '//json:json\ntype T2 struct {\n\tB1 [1]byte `json:"b1"`\n\tB16 [16]byte `json:"b16"`\n\tB32 [32]byte `json:"b32,omitempty"`\n\tB [Size]byte `json:"b"`\n\tT [3]time.Time `json:"t"`\n}\n\n//json:json\ntype B1 [1]byte\n\n//json:json\ntype B32 [32]byte\n\n//json:json\ntype BSize [Size]byte\n\n//json:json\ntype TT [2]time.Time\n\n//json:json\ntype SS [2]Sub\n\n//json:json\ntype UU [Size]Sub\n'
put('n_arr', 't.go', t)
# ---- recursion
put('n_recursive', 't.go', '''
package rec

//json:json
type Tree struct {
	V    int              `json:"v"`
	Kids []*Tree          `json:"kids"`
	ByN  map[string]*Tree `json:"byN"`
	Up   *Tree            `json:"up,omitempty"`
}

//json:json
type Nodes []Node

//json:json
type Node struct {
	Nodes Nodes `json:"nodes"`
	Name  string `json:"name"`
}

//json:json
type Dict map[string]Entry

//json:json
type Entry struct {
	D Dict `json:"d"`
	N *Node `json:"n"`
}

//json:strict
type Ping struct {
	Pong *Pong `json:"pong"`
}

//json:json
type Pong struct {
	Ping *Ping `json:"ping,omitempty"`
	List []Ping `json:"list"`
}
''')
# ---- packages of the module
put('n_ext_twice', 't.go', '''
package ext

import (
	"fill/n_ext_twice/fill/n_ext_twice/deep"
	"fill/n_ext_twice/lib/fill/n_ext_twice/types"
)

//json:json
type T1 struct {
	A types.Str            `json:"a"`
	B types.Obj            `json:"b"`
	C *types.Num           `json:"c"`
	D []types.Num          `json:"d"`
	E map[string]types.Obj `json:"e"`
	F types.Num            `json:"f,omitempty"`
	G deep.Str             `json:"g"`
	H []deep.Obj           `json:"h"`
}

//json:json
type L1 []types.Num

//json:json
type L2 []types.Obj

//json:json
type T2 struct {
	types.Base `json:",inline"`
	deep.Base2 `json:",inline"`
	Z          int `json:"z"`
}
''')
for d, x in (('lib/fill/n_ext_twice/types', ''), ('fill/n_ext_twice/deep', '2')):
    put('n_ext_twice', f'{d}/t.go', f'''
package {d.split('/')[-1]}

type Str string

type Num int16

//json:json
type Obj struct {{
	A{x} int `json:"a{x}"`
}}

type Base{x} struct {{
	ID{x}   int    `json:"id{x}"`
	Name{x} string `json:"name{x},omitempty"`
}}
''')
put('n_ext_alias', 't.go', '''
package ext

import (
	strs "fill/n_ext_alias/go-types"
	"fill/n_ext_alias/api/v2"
	"fill/n_ext_alias/model.v1/model"
)

//json:json
type T1 struct {
	A strs.Name `json:"a"`
	B *strs.Obj `json:"b"`
	C v2.Name   `json:"c"`
	D []v2.Obj  `json:"d"`
	E model.Obj `json:"e"`
	F map[strs.Name]v2.Name `json:"f"`
	G []model.Kind `json:"g"`
	H [2]model.Kind `json:"h"`
	I *model.Kind `json:"i,omitempty"`
}

//json:json
type T2 struct {
	strs.Common `json:",inline"`
	v2.Shared   `json:",inline"`
}

//json:json
type M1 map[strs.Name]model.Kind

//json:json
type N1 model.Kind

//json:json
type N2 v2.Obj
''')
put('n_ext_alias', 'go-types/t.go', '''
package types

type Name string

//json:json
type Obj struct {
	A int `json:"a"`
}

type Common struct {
	X int `json:"x"`
}
''')
put('n_ext_alias', 'api/v2/t.go', '''
package v2

type Name uint32

//json:strict
type Obj struct {
	B string `json:"b"`
}

type Shared struct {
	Y string `json:"y"`
	Z *bool  `json:"z"`
}
''')
put('n_ext_alias', 'model.v1/model/t.go', '''
package model

type Kind uint8

//json:json
type Obj struct {
	K Kind `json:"k"`
}
''')
put('n_ext_alias', 'model.v1/model/t_test.go', '''
package model_test

type Kind string

type Obj int
''')
put('n_ext_chain', 't.go', '''
package ext

import "fill/n_ext_chain/a"

//json:strict
type T1 struct {
	a.Outer `json:",inline"`
	Z       int `json:"z"`
}

//json:json
type T2 struct {
	Q       string `json:"q"`
	a.Outer `json:",inline"`
}
''')
put('n_ext_chain', 'a/t.go', '''
package a

import "fill/n_ext_chain/b"

type Outer struct {
	A       int `json:"a"`
	b.Inner `json:",inline"`
	C       string `json:"c,omitempty"`
}
''')
put('n_ext_chain', 'b/t.go', '''
package b

type Inner struct {
	I int    `json:"i"`
	J string `json:"j"`
	Last `json:",inline"`
}

type Last struct {
	K bool `json:"k"`
}
''')
# two packages of one name; the inlined one is found by the name of its type
put('n_ext_hint', 't.go', '''
package ext

import "fill/n_ext_hint/a"

//json:strict
type T1 struct {
	a.Outer `json:",inline"`
}
''')
put('n_ext_hint', 'a/t.go', '''
package a

import "fill/n_ext_hint/y/b"

type Outer struct {
	A       int `json:"a"`
	b.Inner `json:",inline"`
}
''')
put('n_ext_hint', 'x/b/t.go', '''
package b

const Width = 3

var Inn = 4

type Other struct {
	Inner int `json:"inner"`
	O     int `json:"o"`
}
''')
put('n_ext_hint', 'y/b/t.go', '''
package b

type Inner struct {
	I int    `json:"i"`
	J string `json:"j"`
}
''')
put('n_ext_hint', 'z/b/t.go', '''
package b

type Third struct {
	T int `json:"t"`
}
''')
# packages whose directories begin with files of their tests
put('n_ext_tests', 't.go', '''
package ext

import (
	"fill/n_ext_tests/base"
	"fill/n_ext_tests/middle"
)

//json:strict
type T1 struct {
	middle.Mid `json:",inline"`
	N          int `json:"n"`
}

//json:json
type T2 struct {
	base.Base `json:",inline"`
	K base.Kind `json:"k,omitempty"`
	L []base.Kind `json:"l"`
}
''')
put('n_ext_tests', 'middle/t.go', '''
package middle

import "fill/n_ext_tests/base"

type Mid struct {
	base.Base `json:",inline"`
	M         int `json:"m"`
}
''')
put('n_ext_tests', 'middle/a_test.go', '''
package middle

type Mid2 struct {
	X int `json:"x"`
}
''')
put('n_ext_tests', 'base/a_test.go', '''
package base_test

type Base struct {
	Wrong int `json:"wrong"`
}

type Kind int
''')
put('n_ext_tests', 'base/t.go', '''
package base

type Base struct {
	B int `json:"b"`
	C *string `json:"c"`
}

type Kind string
''')
# types of other packages in every place
put('n_ext_places', 't.go', '''
package ext

import (
	"time"

	"github.com/google/uuid"

	"fill/n_ext_places/kinds"
)

//json:json
type T1 struct {
	S kinds.Str  `json:"s"`
	I kinds.I8   `json:"i"`
	U kinds.U64  `json:"u"`
	F kinds.F32  `json:"f"`
	B kinds.Flag `json:"b"`
	T time.Time  `json:"t"`
	D uuid.UUID  `json:"d"`
}

//json:json
type T2 struct {
	S *kinds.Str  `json:"s"`
	I *kinds.I8   `json:"i"`
	U *kinds.U64  `json:"u"`
	F *kinds.F32  `json:"f"`
	B *kinds.Flag `json:"b"`
}

//json:json
type T3 struct {
	S kinds.Str  `json:"s,omitempty"`
	I kinds.I8   `json:"i,omitempty"`
	U kinds.U64  `json:"u,omitempty"`
	F kinds.F32  `json:"f,omitempty"`
	B kinds.Flag `json:"b,omitempty"`
}

//json:json
type T4 struct {
	S *kinds.Str  `json:"s,omitempty"`
	I *kinds.I8   `json:"i,omitempty"`
	U *kinds.U64  `json:"u,omitempty"`
	F *kinds.F32  `json:"f,omitempty"`
	B *kinds.Flag `json:"b,omitempty"`
}

//json:json
type T5 struct {
	S []kinds.Str  `json:"s"`
	I []kinds.I8   `json:"i"`
	U []kinds.U64  `json:"u"`
	F []kinds.F32  `json:"f"`
	B []kinds.Flag `json:"b"`
	O []kinds.Obj  `json:"o"`
	P []*kinds.Obj `json:"p"`
	L []kinds.List `json:"l"`
}

//json:json
type T6 struct {
	S map[string]kinds.Str  `json:"s"`
	I map[string]kinds.I8   `json:"i"`
	U map[kinds.Str]kinds.U64  `json:"u"`
	F map[string]kinds.F32  `json:"f"`
	B map[string]kinds.Flag `json:"b"`
	O map[kinds.Str]kinds.Obj  `json:"o"`
	P map[string]*kinds.Obj `json:"p"`
}

//json:json
type T7 struct {
	S [2]kinds.Str  `json:"s"`
	I [2]kinds.I8   `json:"i"`
	F [2]kinds.F32  `json:"f"`
	B [2]kinds.Flag `json:"b"`
	T [2]time.Time  `json:"t"`
}

//json:json
type T8 struct {
	S [][]kinds.Str  `json:"s"`
	I [][]kinds.I8   `json:"i"`
	B [][]kinds.Flag `json:"b"`
	O [][]kinds.Obj  `json:"o"`
	P [][]*kinds.Obj `json:"p"`
}

//json:strict
type T9 struct {
	O kinds.Obj   `json:"o"`
	P *kinds.Obj  `json:"p"`
	Q kinds.Obj   `json:"q,omitempty"`
	R *kinds.Obj  `json:"r,omitempty"`
	L kinds.List  `json:"l"`
	M kinds.Map   `json:"m"`
	N kinds.Named `json:"n"`
	K kinds.List  `json:"k,omitempty"`
	J kinds.Map   `json:"j,omitempty"`
	I kinds.Named `json:"i,required"`
}

//json:json
type D1 kinds.Str

//json:json
type D2 kinds.I8

//json:json
type D3 kinds.U64

//json:json
type D4 kinds.F32

//json:json
type D5 kinds.Flag

//json:json
type D6 kinds.Obj

//json:json
type D7 []kinds.Flag

//json:json
type D9 [2]kinds.I8

//json:json
type DA map[kinds.Str]kinds.F32

//json:json
type DB map[string]kinds.Obj

//json:json
type DD kinds.List

//json:json
type DE kinds.Map
''')
put('n_ext_places', 'kinds/t.go', '''
package kinds

type Str string

type I8 int8

type U64 uint64

type F32 float32

type Flag bool

//json:strict
type Obj struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//json:json
type List []Str

//json:json
type Map map[string]I8

//json:json
type Named string
''')
# ---- inlining: what an inlined struct can hold, where it stands, how often
put('n_inline_places', 't.go', '''
package inline

import (
	"time"

	"github.com/google/uuid"
)

type Str string

//json:json
type Obj struct {
	A int `json:"a"`
}

type One struct {
	P1 int `json:"p1"`
}

type Two struct {
	Q1 string     `json:"q1,required"`
	Q2 *int       `json:"q2,omitempty"`
	Q3 time.Time  `json:"q3" layout:"2006-01-02"`
	Q4 uuid.UUID  `json:"q4"`
	Q5 Str        `json:"q5" default:"five"`
	Q6 Obj        `json:"q6"`
	Q7 []Obj      `json:"q7"`
	Q8 map[Str]int `json:"q8,omitempty"`
	Q9 *Obj       `json:"q9"`
}

type Three struct {
	Two `json:",inline"`
	One `json:",inline"`
	R   bool `json:"r"`
}

//json:strict
type First struct {
	One `json:",inline"`
	A   int `json:"a"`
}

//json:strict
type Middle struct {
	A   int `json:"a"`
	One `json:",inline"`
	B   int `json:"b"`
}

//json:strict
type Last struct {
	A   int `json:"a"`
	B   string `json:"b,omitempty"`
	Two `json:",inline"`
}

//json:json
type Both struct {
	One `json:",inline"`
	Two `json:",inline"`
}

//json:strict
type Deep struct {
	A     int `json:"a"`
	Three `json:",inline"`
	Z     int `json:"z,omitempty"`
}

//json:json
type Mixed struct {
	Obj  `json:"obj"`
	One  `json:",inline"`
	Next *Mixed `json:"next"`
}

//json:encode
type Enc struct {
	Three `json:",inline"`
}

//json:decode,strict
type Dec struct {
	Three `json:",inline"`
}
''')
# ---- pointers, lists and maps of the generated types of every kind
put('n_gen_places', 't.go', '''
package gen

//json:json
type Int int

//json:json
type Str string

//json:json
type Flag bool

//json:json
type Float float64

//json:json
type Big uint64

//json:json
type List []int

//json:json
type Map map[string]int

//json:json
type Bytes []byte

//json:strict
type Obj struct {
	X int `json:"x"`
}

//json:json
type Objs []Obj

//json:json
type MObjs map[Str]*Obj

//json:json
type T1 struct {
	A Int   `json:"a"`
	B Str   `json:"b"`
	C Flag  `json:"c"`
	D Float `json:"d"`
	E Big   `json:"e"`
	F List  `json:"f"`
	G Map   `json:"g"`
	H Bytes `json:"h"`
	I Obj   `json:"i"`
	J Objs  `json:"j"`
	L MObjs `json:"l"`
}

//json:json
type T2 struct {
	A Int   `json:"a,omitempty"`
	B Str   `json:"b,omitempty"`
	C Flag  `json:"c,omitempty"`
	D Float `json:"d,omitempty"`
	E Big   `json:"e,omitempty"`
	F List  `json:"f,omitempty"`
	G Map   `json:"g,omitempty"`
	H Bytes `json:"h,omitempty"`
	I Obj   `json:"i,omitempty"`
	J Objs  `json:"j,omitempty"`
	L MObjs `json:"l,omitempty"`
}

//json:strict
type T3 struct {
	A *Int   `json:"a"`
	B *Str   `json:"b"`
	C *Flag  `json:"c"`
	D *Float `json:"d,omitempty"`
	E *Big   `json:"e,omitempty"`
	I *Obj   `json:"i,omitempty"`
}

//json:json
type T4 struct {
	A []Int   `json:"a"`
	B []Str   `json:"b"`
	C []Flag  `json:"c"`
	D []Float `json:"d"`
	E []Big   `json:"e"`
	I []Obj   `json:"i,omitempty"`
	J []*Obj  `json:"j,required"`
}

//json:json
type T5 struct {
	A map[string]Int   `json:"a"`
	B map[Str]Str   `json:"b"`
	C map[string]Flag  `json:"c"`
	D map[string]Float `json:"d"`
	E map[Str]Big   `json:"e"`
	I map[string]Obj   `json:"i,omitempty"`
	J map[Str]*Obj  `json:"j,required"`
}

//json:json
type T6 struct {
	T1 T1 `json:"t1"`
	T2 *T2 `json:"t2"`
	T3 T3 `json:"t3,omitempty"`
	T4 []T4 `json:"t4"`
	T5 map[string]T5 `json:"t5"`
	T6 *T6 `json:"t6,omitempty"`
}
''')
# ---- types of the module that share the names of time.Time and uuid.UUID
put('n_ext_clock', 'clock/c.go', '''
package clock

//json:json
type Time struct {
	H int `json:"h"`
	M int `json:"m"`
}

//json:json
type UUID []string
''')
put('n_ext_clock', 'ids/c.go', '''
package ids

//json:json
type UUID struct {
	A uint64 `json:"a"`
	B uint64 `json:"b"`
}

type Time string

type Base struct {
	At  Time   `json:"at"`
	Ats []Time `json:"ats,omitempty"`
	Id  UUID   `json:"id"`
}
''')
put('n_ext_clock', 't.go', '''
package ext

import (
	"time"

	"fill/n_ext_clock/clock"
	"fill/n_ext_clock/ids"

	"github.com/google/uuid"
)

//json:json
type T1 struct {
	A clock.Time            `json:"a"`
	B *clock.Time           `json:"b"`
	C []clock.Time          `json:"c"`
	D map[string]clock.Time `json:"d"`
	E clock.Time            `json:"e,omitempty"`
	F []*clock.Time         `json:"f"`
}

//json:strict
type T2 struct {
	A clock.UUID  `json:"a"`
	B ids.UUID    `json:"b"`
	C *ids.UUID   `json:"c"`
	D []ids.UUID  `json:"d"`
	E ids.UUID    `json:"e,omitempty"`
	F uuid.UUID   `json:"f"`
	G *uuid.UUID  `json:"g"`
	H []uuid.UUID `json:"h"`
}

//json:json
type T3 struct {
	A ids.Time            `json:"a"`
	B *ids.Time           `json:"b"`
	C []ids.Time          `json:"c"`
	D map[string]ids.Time `json:"d"`
	E ids.Time            `json:"e,omitempty"`
	F time.Time           `json:"f"`
	G *time.Time          `json:"g,omitempty"`
	H []time.Time         `json:"h"`
}

//json:json
type T4 clock.Time

//json:json
type T5 ids.UUID

//json:json
type T6 ids.Time

//json:json
type T7 []clock.Time

//json:json
type T8 map[string]ids.UUID

//json:json
type T9 struct {
	ids.Base `json:",inline"`
	X int `json:"x"`
}

//json:json
type Time struct {
	S int `json:"s"`
}

//json:json
type UUID int

//json:json
type T10 struct {
	A Time `json:"a"`
	B UUID `json:"b"`
	C []Time `json:"c"`
	D []UUID `json:"d"`
	E *Time `json:"e"`
	F *UUID `json:"f,omitempty"`
}
''')
# ---- times and UUIDs as the values of maps and the elements of lists
t = '''
package elems

import (
	"time"

	"github.com/google/uuid"
)

type Key string

//json:json
type At time.Time

//json:json
type Id uuid.UUID

//json:json
type TA struct {
	A []At            `json:"a"`
	B map[string]At   `json:"b,omitempty"`
	C []*At           `json:"c"`
	D [2]At           `json:"d"`
	E []Id            `json:"e"`
	F map[Key]Id      `json:"f,omitempty"`
	G []*Id           `json:"g"`
	H map[string]*Id  `json:"h"`
	K map[string]*At  `json:"k"`
	L At              `json:"l"`
	M *Id             `json:"m"`
	N *At             `json:"n,omitempty"`
	O Id              `json:"o"`
}

//json:strict
type TF struct {
	A Id  `json:"a"`
	B *Id `json:"b"`
	C At  `json:"c,omitempty"`
	D *At `json:"d,omitempty"`
	E NT  `json:"e" layout:"2006"`
	F *NT `json:"f"`
	G NU  `json:"g,omitempty"`
	H *NU `json:"h"`
	I NT  `json:"i,required"`
}

type NT time.Time

type NU uuid.UUID

//json:json
type TB []At

//json:json
type TC map[string]At

//json:json
type TD []Id

//json:json
type TE map[Key]Id

'''
for i, e in enumerate(['time.Time', 'uuid.UUID', '*time.Time', '*uuid.UUID']):
    for j, c in enumerate(['[]', 'map[string]', 'map[Key]', '[3]']):
        if c == '[3]' and e[0] == '*': continue
        an = 'encode' if c == '[3]' and 'uuid' in e else ['json', 'strict'][(i + j) % 2]
        t += f'//json:{an}\ntype S{i}{j} struct {{\n\tA {c}{e} `json:"a"`\n\tB int `json:"b"`\n\tC {c}{e} `json:"c' + ('' if c == '[3]' else ',omitempty') + '"`\n}\n\n'
        if c != '[3]' and not (c == '[]' and e[0] == '*'): t += f'//json:json\ntype N{i}{j} {c}{e}\n\n'
put('n_elems', 't.go', t)
# ---- alias declarations, unexported names, several options in a tag
put('n_alias', 't.go', '''
package alias

type ID = int64
type Name = string
type Al = Sub
type Ls = []int
type Mp = map[string]int

//json:json
type Sub struct { X int `json:"x"` }

//json:json
type T1 struct {
	A ID `json:"a"`
	B *ID `json:"b"`
	C []ID `json:"c"`
	D map[string]ID `json:"d"`
	E Name `json:"e,omitempty"`
}
//json:json
type T2 struct {
	A Al `json:"a"`
	B *Al `json:"b"`
	C []Al `json:"c"`
}
//json:json
type T3 struct {
	A Ls `json:"a"`
	B Mp `json:"b"`
}
//json:json
type point struct {
	x int `json:"x"`
	y *string `json:"y,omitempty"`
	z []point `json:"z"`
	m map[string]*point `json:"m"`
}
//json:strict
type points []point
//json:json
type T4 struct {
	A int `json:"a,omitempty,string"`
	B int `json:"b,string,omitempty"`
	C int `json:"c,required,omitempty"`
}
//json:json
type T5 struct {
	points `json:"pp"`
}
''')
put('n_options', 't.go', '''
package options

import (
	"time"

	"github.com/google/uuid"
)

//json:json
type Sub struct {
	X int `json:"x"`
}

type Flat struct {
	Y int     `json:"y,string,omitempty"`
	Z *string `json:"z,omitempty,string"`
}

//json:json
type T1 struct {
	A int            `json:"a,string,omitempty"`
	B string         `json:"b,required,omitempty"`
	C []int          `json:"c,omitempty,required"`
	D map[string]int `json:"d,string,required"`
	E *Sub           `json:"e,foo,bar,omitempty"`
	F time.Time      `json:"f,required,omitempty"`
	G uuid.UUID      `json:"g,string,required"`
	H bool           `json:"h,,omitempty"`
	I float64        `json:"i,omitempty,omitempty"`
	J []byte         `json:"j,string,omitempty"`
	K Sub            `json:"k,string,omitempty"`
	L uint8          `json:"l,string,omitempty" default:"7"`
	M *bool          `json:"m,string,omitempty"`
	Flat             `json:",string,inline"`
}

//json:strict
type T2 struct {
	A int    `json:"omitempty"`
	B string `json:"required"`
	C bool   `json:"inline"`
	D uint   `json:"omit,omitempty"`
	E *int   `json:"req,required"`
	F *int   `json:"default"`
	G int    `json:"string,string"`
	H int    `json:"layout" default:"3"`
}
''')
# ---- an embedded struct whose name almost equals the name of one of its fields
put('n_inline_names', 't.go', '''
package names

type Id struct {
	ID int `json:"id"`
}

//json:json
type Sub struct {
	SUB int `json:"s"`
}

type Name struct {
	Name string `json:"name"`
}

type Names struct {
	Name string `json:"nm"`
	Nick string `json:"nick,omitempty"`
}

type A struct {
	X int `json:"ax"`
}

type B struct {
	A `json:",inline"`
	B1 int `json:"b1"`
}

//json:json
type T1 struct {
	Id    `json:",inline"`
	Names `json:",inline"`
	V     int `json:"v"`
}

//json:strict
type T2 struct {
	Id `json:",inline"`
	B  `json:",inline"`
}

//json:json
type T3 struct {
	Pre int `json:"pre"`
	B   `json:",inline"`
	Sub `json:"sub"`
}
''')

# ---- what an inlined package imports; packages of one name; named key types
put('n_ext_hint2', 't.go', '''
package t

import "fill/n_ext_hint2/mid"

//json:json
type T struct {
	A string `json:"a"`
	mid.M `json:",inline"`
}
''')
put('n_ext_hint2', 'mid/m.go', '''
package mid

import "fill/n_ext_hint2/two/base"

type M struct {
	base.X `json:",inline"`
	P string `json:"p"`
}
''')
put('n_ext_hint2', 'one/base/b.go', '''
package base

var X = 1

type Y struct {
	One string `json:"one"`
}
''')
put('n_ext_hint2', 'two/base/b.go', '''
package base

type X struct {
	Two int `json:"two"`
}
''')
put('n_ext_same', 't.go', '''
package t

import "fill/n_ext_same/mid"

//json:json
type T struct {
	A string `json:"a"`
	mid.M `json:",inline"`
}
''')
put('n_ext_same', 'mid/m.go', '''
package mid

import "fill/n_ext_same/two/base"

type M struct {
	base.X `json:",inline"`
	P string `json:"p"`
}
''')
put('n_ext_same', 'one/base/b.go', '''
package base

type X struct {
	One string `json:"one"`
}
''')
put('n_ext_same', 'two/base/b.go', '''
package base

type X struct {
	Two int `json:"two"`
}
''')
put('n_named_keys', 't.go', '''
package t

import "fill/n_named_keys/k"

type Loc string

//json:json
type T struct {
	A map[Loc]int `json:"a"`
	B map[k.Key]string `json:"b,omitempty"`
	k.In `json:",inline"`
}

//json:json
type MK map[Loc]string

//json:json
type ML map[k.Key]int64
''')
put('n_named_keys', 'k/k.go', '''
package k

type Key string

type In struct {
	M map[Key]int `json:"m"`
	N map[string]Key `json:"n"`
	L []Key `json:"l"`
	P *Key `json:"p,omitempty"`
}
''')
put('n_ext_deep', 't.go', '''
package t

import (
	"fill/n_ext_deep/mid"
	bb "fill/n_ext_deep/one/base"
)

//json:json
type T struct {
	A string `json:"a"`
	B bb.Str `json:"b"`
	mid.M `json:",inline"`
	C *bb.Str `json:"c,omitempty"`
}
''')
put('n_ext_deep', 'mid/m.go', '''
package mid

import bb "fill/n_ext_deep/two/base"

type M struct {
	P string `json:"p"`
	bb.X `json:",inline"`
	Q bb.Str `json:"q"`
	R []bb.Str `json:"r"`
	S map[bb.Key]*bb.Str `json:"s"`
	T Own `json:"t"`
}

type Own bool
''')
put('n_ext_deep', 'one/base/b.go', '''
package base

type Str string

type X struct {
	One string `json:"one"`
}
''')
put('n_ext_deep', 'three/leaf/l.go', '''
package leaf

import (
	b "fill/n_ext_deep/one/base"
)

type V string

type L struct {
	V V `json:"v"`
	LB *b.Str `json:"lb"`
}
''')
put('n_ext_deep', 'two/base/b.go', '''
package base

import "fill/n_ext_deep/three/leaf"

type Str int64

type Key string

type X struct {
	Two Str `json:"two,omitempty"`
	leaf.L `json:",inline"`
	K map[string]leaf.V `json:"k"`
}
''')

# ---- members of named pointer types, of every scalar kind
kinds = ['bool','int','int8','int16','int32','int64','uint','uint8','uint16','uint32','uint64','float32','float64','string','time.Time']
t = 'package ptrs\n\nimport "time"\n\n' + ''.join(f'type PT{i} *{k}\n' for i, k in enumerate(kinds))
for name, mem, opt, more in [('A','','',''),('B','',',omitempty',''),('C','',',required',''),('D','*','',''),('E','','','default'),('F','',',omitempty',' layout:"2006"'),('G','*',',omitempty','')]:
    t += f'\n//json:json\ntype {name} struct {{\n\tT time.Time `json:"t"`\n'
    for i, k in enumerate(kinds):
        m = more
        if more == 'default':
            if k == 'time.Time': continue
            m = ' default:"%s"' % {'bool': 'true', 'string': 'abc'}.get(k, '7')
        t += f'\tF{i} {mem}PT{i} `json:"f{i}{opt}"{m}`\n'
    t += '}\n'
put('n_ptr_named', 't.go', t)

# ---- arrays of a length another package declares
put('n_ext_arrays', 't.go', '''
package exta

import "fill/n_ext_arrays/pk"

const N = 2

//json:json
type D struct {
	A pk.A                `json:"a"`
	B pk.A                `json:"b,omitempty"`
	C pk.A                `json:"c,required"`
	E *pk.A               `json:"e"`
	F pk.T                `json:"f"`
	H pk.W                `json:"h"`
	X pk.X                `json:"x"`
	J [pk.Size]int        `json:"j"`
	K [pk.Size + N]string `json:"k"`
}

//json:json
type In struct {
	pk.I `json:",inline"`
	J    [pk.Size]int `json:"j"`
	K    [N]uint8     `json:"k"`
}
''')
put('n_ext_arrays', 'pk/t.go', '''
package pk

import "time"

const Size = 3
const Wide = Size + 1

//json:json
type A [Size]int

//json:json
type T [Size]string

//json:json
type W [Wide]int32

//json:json
type X [4]bool

type I struct {
	A [Size]int         `json:"ia"`
	B [Size]byte        `json:"ib"`
	C [Size]time.Time   `json:"ic"`
	D [Size + 1]float64 `json:"id"`
	E A                 `json:"ie"`
}
''')

# ---- embedded types that are no structs, with names of their own
put('n_embed_named', 't.go', '''
package embed

type N int
type S string
type O bool
type FF float64
type F []int
type B []byte

//json:json
type D struct {
	N  `json:"n"`
	S  `json:"s,omitempty"`
	O  `json:"o"`
	FF `json:"ff,required"`
}

//json:strict
type D2 struct {
	F `json:"f"`
	B `json:"b"`
	X int `json:"x" default:"3"`
}

//json:json
type D3 struct {
	N `json:"n" default:"4"`
	S `json:"s" default:"text"`
	O `json:"o,omitempty"`
	FF `json:"ff,omitempty"`
}

//json:json
type T struct {
	X int `json:"x"`
}

//json:json
type U []int

//json:json
type D4 struct {
	T `json:"t"`
	U `json:"u,omitempty"`
}
''')

# ---- several names in one field, long member names, options together
put('n_multi', 't.go', '''
package multi

import (
	"github.com/google/uuid"
	"time"
)

type row struct {
	X int `json:"x"`
}

type Row struct {
	Y string `json:"y"`
}

type num int32
type txt string
type flag bool
type flo float32
type mom time.Time

//json:json
type Lower []row

//json:json
type Upper []Row

// T1 has
// a comment
// of several
// lines
// before
// the
// directive
//
//json:strict,decode
type T1 struct {
	A, B, C, D, E int    `json:"a"`
	F, G, H, I    string `json:"f,omitempty"`
	J, K, L, M    *Sub2  `json:"j"`
	N, O, P, Q    []Sub2 `json:"n"`
}

//json:json
type Sub2 struct {
	X int `json:"x"`
}

//json:json
type T2 struct {
	E int      `json:"e,required" default:"4"`
	F string   `json:"f,required" default:"x"`
	H num      `json:"h,omitempty,required" default:"4"`
	J *num     `json:"j,required"`
	K *uint8   `json:"k,required"`
	L *float32 `json:"l,required,omitempty"`
	M **int    `json:"m,required"`
}

//json:decode
type T7 struct {
	A, B    [3]int         `json:"a"`
	C, D, E time.Time      `json:"c"`
	F, G, H uuid.UUID      `json:"f"`
	I, J, K map[string]int `json:"i"`
	L, M, N Sub2           `json:"l"`
	O, P, Q bool           `json:"o"`
	R, S, T []byte         `json:"r"`
	U, V, W flo            `json:"u"`
}

//json:json
type T8 struct {
	D, E, F, G int `json:"-"`
	H, I, J, K string `json:"-"`
	L, M, N, O []int `json:"-"`
	P, Q, R, S *Sub2 `json:"-"`
	T, U, V, W map[string]int `json:"-"`
	A int    `json:"-,omitempty,x"`
	B int    `json:"b"`
	C string `json:"-,"`
}

//json:json
type T9 struct {
	A num              `json:"a_member_with_a_long_name_a,omitempty"`
	B txt              `json:"a_member_with_a_long_name_b,omitempty"`
	C flag             `json:"a_member_with_a_long_name_c,omitempty"`
	D flo              `json:"a_member_with_a_long_name_d,omitempty"`
	E *num             `json:"a_member_with_a_long_name_e,omitempty"`
	F *txt             `json:"a_member_with_a_long_name_f,omitempty"`
	G *flag            `json:"a_member_with_a_long_name_g,omitempty"`
	H *flo             `json:"a_member_with_a_long_name_h,omitempty"`
	I mom              `json:"a_member_with_a_long_name_i,omitempty"`
	J []num            `json:"a_member_with_a_long_name_j,omitempty"`
	K map[string]txt   `json:"a_member_with_a_long_name_k,omitempty"`
	L []Sub2           `json:"a_member_with_a_long_name_l,omitempty"`
	M *Sub2            `json:"a_member_with_a_long_name_m,omitempty"`
	N Sub2             `json:"a_member_with_a_long_name_n,omitempty"`
	O map[string]*Sub2 `json:"a_member_with_a_long_name_o,omitempty"`
	P []*Sub2          `json:"a_member_with_a_long_name_p,omitempty"`
	Q int64            `json:"a_member_with_a_long_name_q"`
	R uint64           `json:"a_member_with_a_long_name_r,required"`
	S float64          `json:"a_member_with_a_long_name_s" default:"1.5"`
	T uuid.UUID        `json:"a_member_with_a_long_name_t,omitempty"`
	U []byte           `json:"a_member_with_a_long_name_u,omitempty"`
	V *uuid.UUID       `json:"a_member_with_a_long_name_v,omitempty"`
	W *time.Time       `json:"a_member_with_a_long_name_w,omitempty"`
}
''')

# ---- embedded types of another package, with and without a tag
put('n_embed_ext', 't.go', '''
package embedext

import (
	"fill/n_embed_ext/base"
	"time"
)

//json:json
type A struct {
	base.Obj
	X int `json:"x"`
}

//json:json
type B struct {
	base.Obj `json:"obj"`
	X        int `json:"x"`
}

//json:json
type C struct {
	base.Obj `json:"obj,omitempty"`
	base.Num `json:"num,omitempty"`
	base.Flo `json:"flo"`
	base.Flg `json:"flg,omitempty"`
	X        int `json:"x"`
}

//json:strict
type D struct {
	base.Obj `json:"obj,required"`
	base.Txt `json:"txt,required"`
	base.Lst `json:"lst"`
	T        time.Time `json:"t"`
}
''')
put('n_embed_ext', 'base/t.go', '''
package base

//json:json
type Obj struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//json:json
type Lst []Obj

type Num int
type Txt string
type Flo float32
type Flg bool
''')

# ---- options of types that are no structs, types of other files, a package that is only called like a test
put('n_more', 't.go', '''
package more

import (
	"fill/n_more/latest"
)

//json:strict
type A [3]int

//json:strict
type B map[string]Sub

//json:strict
type C []Sub

//json:strict
type D []byte

//json:strict
type E [4]byte

//json:strict
type F map[string]*Sub

type Sub struct {
	X int `json:"x"`
}

//json:json,strict
type G []el1

type el1 struct {
	X int `json:"x"`
}

//json:strict,decode
type H []el2

type el2 struct {
	X int `json:"x"`
}

//json:json,encode
type I []el3

type el3 struct {
	X int `json:"x"`
}

//json:json
type J struct {
	A lower               `json:"a"`
	B []lower             `json:"b"`
	C *lower              `json:"c"`
	D map[string]lower    `json:"d,omitempty"`
	E words               `json:"e"`
	F latest.N            `json:"f"`
	G latest.T            `json:"g"`
	H []latest.N          `json:"h"`
	I *latest.N           `json:"i"`
	J map[string]latest.N `json:"j"`
}

//json:json
type M struct {
	latest.I `json:",inline"`
	Z        int `json:"z"`
}
''')
put('n_more', 'u.go', '''
package more

type lower int

type words string
''')
put('n_more', 'latest/t.go', '''
package latest

//json:json
type T struct {
	X int `json:"x"`
}

type N int

type I struct {
	A N   `json:"ia"`
	B []N `json:"ib"`
	C T   `json:"ic"`
}
''')

# ---- packages called as those of the times and the UUIDs
put('n_ext_std', 't.go', '''
package std

import (
	"fill/n_ext_std/lib/time"
	"fill/n_ext_std/lib/uuid"
)

//json:json
type T struct {
	A time.Time `json:"a"`
	B *time.Time `json:"b"`
	C []time.Time `json:"c"`
	D uuid.UUID `json:"d"`
	E *uuid.UUID `json:"e,omitempty"`
	F map[string]uuid.UUID `json:"f"`
}

//json:json
type U []time.Time

//json:json
type V time.Time

//json:json
type W uuid.UUID
''')
put('n_ext_std', 'lib/time/t.go', '''
package time

//json:json
type Time struct {
	Sec int64 `json:"sec"`
}
''')
put('n_ext_std', 'lib/uuid/t.go', '''
package uuid

type UUID string
''')
