"""Writes the hand-made m_* groups of the corpus (declaration shapes the type grid of mkcorpus.py does not reach)."""
import os,shutil
root=__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'corpus')
for d in os.listdir(root):
    if d.startswith('m_'): shutil.rmtree(f'{root}/{d}')
def put(group,path,text):
    p=f'{root}/{group}/{path}'
    os.makedirs(os.path.dirname(p),exist_ok=True)
    open(p,'w').write(text.lstrip('\n'))

# ---- names
put('m_names_go','t.go','''
package names

//json:json
type T1 struct {
	Err    int       `json:"err"`
	S      string    `json:"s"`
	V      int       `json:"v"`
	O      string    `json:"o"`
	W      bool      `json:"w"`
	B      []string  `json:"b"`
	L      []int     `json:"l"`
	ListA  []string  `json:"listA"`
	Key    *int      `json:"key"`
	Value  string    `json:"value"`
	Result string    `json:"result"`
	Parser *string   `json:"parser"`
}

//json:json
type T2 struct {
	Key1  []int             `json:"key1"`
	Val1  []string          `json:"val1"`
	Elem1 map[string]int    `json:"elem1"`
	K     map[string]string `json:"k"`
	Ref   *int32            `json:"ref"`
	NewElem []*int          `json:"newElem"`
	Tmp1  [2]int            `json:"tmp1"`
	WantComma bool          `json:"wantComma"`
}

//json:strict
type T3 struct {
	lower  string `json:"lower"`
	Upper  string `json:"UPPER"`
	X_y    int    `json:"x_y"`
	Ünïc   int    `json:"ünïc"`
	Time   int    `json:"time"`
	Fmt    string `json:"fmt"`
	Bytes  string `json:"bytes"`
	Strconv []int `json:"strconv"`
	Math   int8   `json:"math"`
}
''')
put('m_names_json','t.go','''
package names

//json:strict
type T1 struct {
	A string `json:"foo-bar"`
	B string `json:"foo.bar"`
	C string `json:"foo bar"`
	D string `json:"$ref,omitempty"`
	E int    `json:"@type"`
	F int    `json:"имя"`
	G int    `json:"名前,omitempty"`
	H bool   `json:"1"`
	I bool   `json:"type"`
	J *int   `json:"func"`
	K *int   `json:"a/b"`
}

//json:strict
type T2 struct {
	A int    `json:"id"`
	B string `json:"ID"`
	C bool   `json:"Id"`
	D int    `json:"i"`
	E int    `json:"idd"`
	F []int  `json:"id_list"`
	G map[string]int `json:"iD"`
}

//json:json
type T3 struct {
	A int    `json:"a" xml:"zzz" default:"7"`
	B string `xml:"b,attr" json:"b,omitempty"`
	C int    `yaml:"json:\\"x\\"" json:"c"`
	D int    `db:"d" json:"dd"`
	E string `json:"-"`
	F []int  `json:"-"`
	G int    `json:"g"`
}
''')
put('m_names_multi','t.go','''
package names

type Point struct {
	X, Y int `json:"-"`
}

//json:json
type T1 struct {
	A string `json:"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"`
	B string `json:"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"`
}
''')
# ---- many members
w='package wide\n\n//json:strict\ntype W1 struct {\n'
kinds=['string','int','bool','uint16','float64','*int']
for i in range(48):
    o=',omitempty' if i%7==3 else ''
    w+=f'\tF{i} {kinds[i%len(kinds)] if i in (3,8,15,16,17,31,32,33) else "string"} `json:"f{i}{o}"`\n'
w+='}\n'
put('m_wide','t.go',w)
# ---- mixtures
put('m_mix_a','t.go','''
package mix

import (
	"time"

	"github.com/google/uuid"
)

//json:json
type Sub struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//json:json
type T1 struct {
	U  uuid.UUID         `json:"u"`
	T  time.Time         `json:"t"`
	B  []byte            `json:"b"`
	U2 uuid.UUID         `json:"u2"`
	T2 time.Time         `json:"t2" layout:"2006-01-02"`
	S  string            `json:"s"`
	M  map[string]string `json:"m"`
	M2 map[string]*Sub   `json:"m2"`
	L  []Sub             `json:"l"`
}

//json:strict
type T2 struct {
	L  []*Sub         `json:"l,omitempty"`
	A  [2]string      `json:"a"`
	L2 [][]int        `json:"l2,omitempty"`
	P  *Sub           `json:"p,omitempty"`
	Q  Sub            `json:"q"`
	R  *string        `json:"r,omitempty"`
	M  map[string]Sub `json:"m,omitempty"`
	N  *float32       `json:"n"`
	I  int8           `json:"i" default:"-5"`
}

//json:json
type T3 struct {
	PT *time.Time  `json:"pt,omitempty"`
	PU *uuid.UUID  `json:"pu,omitempty"`
	LT []time.Time `json:"lt"`
	M  map[string]int `json:"m"`
	M3 map[string]bool `json:"m3,omitempty"`
	X  bool `json:"x,omitempty"`
	Y  *bool `json:"y,omitempty"`
	Z  bool `json:"z"`
}
''')
put('m_mix_b','t.go','''
package mix

type (
	Str string
	I16 int16
	Key string
)

//json:json
type Leaf struct {
	V *I16 `json:"v"`
}

//json:json
type Node struct {
	Name  Str           `json:"name,required"`
	Left  *Node         `json:"left"`
	Right *Node         `json:"right,omitempty"`
	Kids  []Node        `json:"kids"`
	Index map[Key]*Node `json:"index"`
	Leaf  Leaf          `json:"leaf,omitempty"`
}

//json:json
type T2 struct {
	S1 Str   `json:"s1,omitempty"`
	S2 *Str  `json:"s2,omitempty"`
	S3 []Str `json:"s3,omitempty"`
	N1 I16   `json:"n1" default:"12"`
	N2 *I16  `json:"n2" default:"-12"`
	N3 []I16 `json:"n3"`
	E  Str   `json:"e" default:"dflt"`
	F  float32 `json:"f" default:"1.5"`
	G  bool  `json:"g" default:"true"`
	H  string `json:"h" default:"a,b c"`
	J  uint64 `json:"j" default:"18446744073709551615"`
	K  *string `json:"k" default:"x"`
}

//json:json
type Empty struct {
}

//json:strict
type EmptyStrict struct {
}

//json:json
type One struct {
	E  Empty  `json:"e"`
	PE *Empty `json:"pe"`
	LE []Empty `json:"le"`
}
''')
# ---- where the comment stands
put('m_decl_group','t.go','''
package decl

//json:json
type (
	A struct {
		X int `json:"x"`
	}
	B struct {
		Y string `json:"y"`
		A A      `json:"a"`
	}
)

type (
	// C is documented.
	//json:strict
	C struct {
		Z bool `json:"z"`
	}
	// D has no codec.
	D struct {
		Z bool `json:"z"`
	}
	// E is a list.
	//
	// json: strict
	E []string
)

// F is documented at length.
//
// json:strict
//
// More text.
type F struct {
	C C  `json:"c"`
	P *C `json:"p"`
}

/* json:json */
type plain struct {
	Q int `json:"q"`
}
''')
put('m_decl_dir','t.go','''
package decl

//json:encode
type Enc struct {
	A int      `json:"a"`
	L []string `json:"l"`
	N *Enc     `json:"n"`
}

//json:decode
type Dec struct {
	A int      `json:"a"`
	L []string `json:"l"`
	N *Dec     `json:"n"`
}

//json:strict,decode
type SDec struct {
	A int `json:"a"`
}

//json:encode,strict
type SEnc struct {
	A int `json:"a"`
}

//json:encode
type LEnc []int

//json:decode
type LDec []int

//json:encode
type MEnc map[string]int

//json:decode
type MDec map[string]int

//json:encode
type IEnc int

//json:decode
type IDec int

//json:encode
type BEnc []byte

//json:decode
type BDec []byte

//json:STRICT , Decode
type Up struct {
	A int `json:"a"`
}
''')
put('m_decl_inherit','t.go','''
package decl

//json:strict
type List []Item

type Item struct {
	A int    `json:"a"`
	B string `json:"b"`
}

//json:json
type Words []Word

type Word string

//json:json
type Uses struct {
	L List  `json:"l"`
	I Item  `json:"i"`
}
''')
put('m_decl_custom','t.go','''
package decl

import (
	"errors"

	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"
)

//json:custom
type Custom struct {
	X int `json:"x"`
}

func (c *Custom) FillFromJSON(v *fastjson.Value) error {
	if v.Type() != fastjson.TypeNumber {
		return errors.New("number expected")
	}
	var err error
	c.X, err = v.Int()
	return err
}

func (c *Custom) MarshalTo(w *jwriter.Writer) error {
	if c == nil {
		w.RawString("null")
		return nil
	}
	w.Int(c.X)
	return nil
}

func (c Custom) IsZero() bool { return c.X == 0 }

func (c *Custom) Reset() { c.X = 0 }

//json:json
type Uses struct {
	C Custom            `json:"c"`
	P *Custom           `json:"p"`
	O Custom            `json:"o,omitempty"`
	L []Custom          `json:"l"`
	Q []*Custom         `json:"q"`
	M map[string]Custom `json:"m"`
}
''')
# ---- inlining
put('m_inline_nested','t.go','''
package inline

type Deep struct {
	D1 int    `json:"d1"`
	D2 string `json:"d2,omitempty"`
}

type Mid struct {
	M1   bool `json:"m1"`
	Deep `json:",inline"`
	M2   []int `json:"m2"`
}

//json:strict
type T1 struct {
	A   int `json:"a"`
	Mid `json:",inline"`
	Z   *int `json:"z,omitempty"`
}

//json:json
type T2 struct {
	Deep `json:",inline"`
}

//json:strict
type T3 struct {
	Mid   `json:",inline"`
	Other `json:",inline"`
	Last  string `json:"last,required"`
}

type Other struct {
	O1 int8     `json:"o1" default:"3"`
	O2 []string `json:"o2,omitempty"`
	O3 *string  `json:"o3"`
}
''')
put('m_embed_named','t.go','''
package embed

//json:json
type Base struct {
	A int    `json:"a"`
	B string `json:"b"`
}

//json:json
type T1 struct {
	Base `json:"base"`
	C    int `json:"c"`
}

//json:strict
type T2 struct {
	C    int `json:"c"`
	Base `json:"base,omitempty"`
}

//json:json
type T3 struct {
	Base `json:"base,required"`
	L    []Base `json:"l"`
}
''')
# ---- other packages
put('m_ext_alias','t.go','''
package ext

import (
	one "fill/m_ext_alias/a/types"
	two "fill/m_ext_alias/b/types"
)

//json:json
type T1 struct {
	A one.Str   `json:"a"`
	B two.Str   `json:"b"`
	C one.Obj   `json:"c"`
	D two.Obj   `json:"d"`
	E *one.Obj  `json:"e"`
	F []two.Obj `json:"f"`
}

//json:json
type T2 struct {
	A map[string]one.Obj `json:"a"`
	B []two.Str `json:"b"`
	C *two.Str  `json:"c"`
	D one.Str   `json:"d,omitempty"`
	E two.Str   `json:"e,omitempty"`
}

//json:json
type L1 []one.Str

//json:json
type L2 []two.Str

//json:json
type L3 []two.Obj
''')
put('m_ext_alias','a/types/t.go','''
package types

type Str string

//json:strict
type Obj struct {
	A int `json:"a"`
}
''')
put('m_ext_alias','b/types/t.go','''
package types

type Str int

//json:json
type Obj struct {
	B string `json:"b"`
	C []int  `json:"c"`
}
''')
put('m_ext_plain','t.go','''
package ext

import (
	"time"

	"fill/m_ext_plain/pkg/deep/inner"
	"fill/m_ext_plain/shared"
)

//json:json
type T1 struct {
	A shared.Name     `json:"a"`
	B *shared.Name    `json:"b"`
	C shared.Count    `json:"c,omitempty"`
	D inner.Name      `json:"d"`
	E inner.Flags     `json:"e"`
	F inner.Obj       `json:"f"`
	G *inner.Obj      `json:"g,omitempty"`
	T time.Time       `json:"t"`
}

//json:strict
type T2 struct {
	L []shared.Name          `json:"l"`
	M map[string]shared.Count `json:"m"`
	K map[shared.Name]int    `json:"k"`
	O []inner.Obj            `json:"o"`
	P []*inner.Obj           `json:"p"`
	Q map[string]*inner.Obj  `json:"q"`
	R []shared.Count         `json:"r,omitempty"`
}

//json:json
type L1 []shared.Count

//json:json
type L2 []inner.Obj

//json:json
type M1 map[string]inner.Obj

//json:json
type M2 map[string]shared.Name

//json:json
type M3 map[shared.Name]shared.Count

//json:json
type N1 shared.Name

//json:json
type N2 shared.Count

//json:json
type N3 inner.Obj

//json:json
type U1 struct {
	N1 N1 `json:"n1"`
	N2 *N2 `json:"n2"`
	N3 N3 `json:"n3"`
	A  [2]shared.Count `json:"a"`
	L  [][]shared.Count `json:"l"`
	M  M2 `json:"m"`
}
''')
put('m_ext_plain','shared/t.go','''
package shared

type Name string

type Count uint16
''')
put('m_ext_plain','shared/z.go','''
package shared

type Unused struct{ X int }
''')
put('m_ext_plain','pkg/deep/inner/a.go','''
package inner

type Name string
''')
put('m_ext_plain','pkg/deep/inner/b.go','''
package inner

//json:json
type Flags []bool

//json:json
type Obj struct {
	N Name `json:"n"`
	F Flags `json:"f"`
}
''')
put('m_ext_inline','t.go','''
package ext

import "fill/m_ext_inline/base"

//json:strict
type T1 struct {
	A           int `json:"a"`
	base.Common `json:",inline"`
	Z           string `json:"z"`
}

//json:json
type T2 struct {
	base.Common `json:",inline"`
	base.Extra  `json:"extra"`
}
''')
put('m_ext_inline','base/t.go','''
package base

type Common struct {
	ID   int     `json:"id"`
	Name *string `json:"name,omitempty"`
	Tags []string `json:"tags"`
	Inner `json:",inline"`
}

type Inner struct {
	Deep bool `json:"deep"`
	Kind string `json:"kind" default:"none"`
}

//json:json
type Extra struct {
	X float64 `json:"x"`
}
''')
put('m_ext_same','t.go','''
package ext

import "fill/m_ext_same/b/types"

//json:json
type T1 struct {
	types.Common `json:",inline"`
	A types.Str `json:"a"`
}
''')
for d,body in (('a','A string'),('b','B int')):
    n=body.split()[0].lower()
    put('m_ext_same',f'{d}/types/t.go',f'''
package types

type Str {'string' if d=='a' else 'int'}

type Common struct {{
	{body} `json:"{n}{n}"`
}}
''')
put('m_ext_inlalias','t.go','''
package ext

import al "fill/m_ext_inlalias/base"

//json:json
type T1 struct {
	al.Common `json:",inline"`
	A int `json:"a"`
}
''')
put('m_ext_inlalias','base/t.go','''
package base

type Common struct {
	B int `json:"b"`
}
''')
put('m_ext_inltypes','t.go','''
package ext

import "fill/m_ext_inltypes/base"

//json:json
type T1 struct {
	base.Common `json:",inline"`
}
''')
put('m_ext_inltypes','base/t.go','''
package base

type Str string

//json:json
type Obj struct {
	A int `json:"a"`
}

type Common struct {
	S Str `json:"s"`
	O Obj `json:"o"`
}
''')
put('m_ext_inlcomp','t.go','''
package ext

import "fill/m_ext_inlcomp/base"

//json:json
type T1 struct {
	base.Common `json:",inline"`
}
''')
put('m_ext_inlcomp','base/t.go','''
package base

type Str string

//json:json
type Obj struct {
	A int `json:"a"`
}

type Common struct {
	P *Obj `json:"p"`
	L []Obj `json:"l"`
	M map[string]Str `json:"m"`
}
''')
# ---- several files of one package
put('m_files_method','a.go','''
package files

//json:json
type T1 struct {
	A Sub     `json:"a"`
	B *Sub    `json:"b"`
	L []Sub   `json:"l"`
	P []*Sub  `json:"p"`
	M map[string]Sub `json:"m"`
	S Str     `json:"s"`
	W Words   `json:"w"`
}
''')
put('m_files_method','b.go','''
package files

//json:strict
type Sub struct {
	X int `json:"x"`
}

//json:json
type Str string

//json:json
type Words []string
''')
put('m_files_scalar','a.go','''
package files

//json:json
type T1 struct {
	S Str `json:"s"`
}
''')
put('m_files_scalar','b.go','''
package files

type Str string
''')
put('m_files_inline','a.go','''
package files

//json:json
type T1 struct {
	Base `json:",inline"`
}
''')
put('m_files_inline','b.go','''
package files

type Base struct {
	S string `json:"s"`
}
''')
# ---- transit
put('m_transit','t.go','''
package transit

//json:json
type Base struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//json:json
type Wrap Base

//json:json
type Num int16

//json:json
type Num2 Num

//json:json
type Text string

//json:json
type Uses struct {
	W  Wrap   `json:"w"`
	PW *Wrap  `json:"pw"`
	N  Num    `json:"n"`
	N2 *Num2  `json:"n2"`
	T  Text   `json:"t,omitempty"`
	LT []Text `json:"lt"`
	LN []Num2 `json:"ln"`
}
''')
# ---- layouts
put('m_time_layout','t.go','''
package times

import "time"

//json:json
type T1 struct {
	A time.Time  `json:"a" layout:"2006-01-02"`
	B time.Time  `json:"b,omitempty" layout:"15:04"`
	C *time.Time `json:"c" layout:"02.01.2006 15:04:05"`
	D *time.Time `json:"d,omitempty" layout:"Jan 2, 2006 at 3:04pm (MST)"`
	E time.Time  `json:"e"`
	F *time.Time `json:"f"`
}

//json:strict
type T2 struct {
	A time.Time  `json:"a" layout:"time.RFC1123Z"`
	B *time.Time `json:"b" layout:"time.RFC1123"`
	C time.Time  `json:"c,omitempty" layout:"time.Kitchen"`
	D time.Time  `json:"d,required" layout:"time.DateOnly"`
	E time.Time  `json:"e" layout:"Mon, 02 Jan 2006"`
}
''')
# ---- depth
for n,t in (('ss','[][]string'),('sps','[][]*Sub'),('sst','[][]Sub'),('at','[2]time.Time'),('mnk','map[Key]Sub'),('mnv','map[Key]Key'),('mp','map[string]*int'),('mf','map[string]float32')):
    imp=('import "time"\n\n' if 'time.' in t else 'import "github.com/google/uuid"\n\n' if 'uuid.' in t else '')
    put(f'm_deep_{n}','t.go',f'''
package deep

{imp}//json:json
type T1 struct {{
	A {t} `json:"a"`
	B {t} `json:"b,omitempty"`
	C int `json:"c"`
}}

//json:json
type Sub struct {{
	X int `json:"x"`
}}

type Key string
''')

