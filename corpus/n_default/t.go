package defaults

type Str string

type Num int32

type Flag bool

//json:json
type T1 struct {
	A string `json:"a" default:"say \"hi\""`
	B string `json:"b" default:"\"a\" \"b\" \"c\""`
	C string `json:"c" default:"it's"`
	D string `json:"d" default:"100%d %s %%"`
	E string `json:"e" default:"ünïcödé 名"`
	F string `json:"f" default:"  spaces  "`
	G string `json:"g" default:"{\"json\":[1,2]}"`
	H string `json:"h" default:"null"`
	I string `json:"i" default:"0"`
	J string `json:"j" default:"true"`
	K string `json:"k" default:","`
	L string `json:"l" default:"a,omitempty"`
	M string `json:"m" default:"-"`
	N string `json:"n" default:"http://host/path?a=b&c=d#e"`
	O string `json:"o" default:"<b>&amp;</b>"`
}

//json:json
type T2 struct {
	A *string `json:"a" default:"say \"hi\" and \"bye\""`
	B Str     `json:"b" default:"x \"y\" \"z\""`
	C *Str    `json:"c" default:"z"`
	D *string `json:"d,omitempty" default:"0"`
	E Str     `json:"e,omitempty" default:"false"`
}

//json:json
type T3 struct {
	A int     `json:"a" default:"0"`
	B int     `json:"b" default:"-1"`
	C int64   `json:"c" default:"9223372036854775807"`
	D int64   `json:"d" default:"-9223372036854775808"`
	E uint64  `json:"e" default:"18446744073709551615"`
	F int8    `json:"f" default:"-128"`
	G int8    `json:"g" default:"127"`
	H uint8   `json:"h" default:"255"`
	I int16   `json:"i" default:"-32768"`
	J uint16  `json:"j" default:"65535"`
	K int32   `json:"k" default:"2147483647"`
	L uint32  `json:"l" default:"4294967295"`
	M Num     `json:"m" default:"-7"`
	N *Num    `json:"n" default:"7"`
	O *int8   `json:"o" default:"-128"`
	P *uint64 `json:"p" default:"18446744073709551615"`
	Q *int    `json:"q,omitempty" default:"0"`
	R int     `json:"r" default:"0x1F"`
	S int     `json:"s" default:"1_000"`
}

//json:json
type T4 struct {
	A float64  `json:"a" default:"0"`
	B float64  `json:"b" default:"-0.5"`
	C float64  `json:"c" default:"1e300"`
	D float32  `json:"d" default:"1e-5"`
	E float32  `json:"e" default:"3"`
	F *float64 `json:"f" default:"2.718281828"`
	G *float32 `json:"g" default:"-1.5"`
	H float64  `json:"h,omitempty" default:"1.0"`
	I bool     `json:"i" default:"true"`
	J bool     `json:"j" default:"false"`
	K *bool    `json:"k" default:"false"`
	L *bool    `json:"l" default:"true"`
	M Flag     `json:"m" default:"true"`
	N *Flag    `json:"n" default:"false"`
	O bool     `json:"o,omitempty" default:"true"`
}

//json:strict
type T5 struct {
	A int    `default:"5" json:"a"`
	B string `default:"x" json:"b,omitempty" xml:"b"`
	C bool   `xml:"c" default:"true" json:"c"`
	D uint8  `json:"d" default:"1"`
}
