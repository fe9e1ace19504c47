package kinds

type Str string

type I8 int8

type U64 uint64

type F32 float32

type Flag bool

//json:strict
type Obj struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//json:json
type List []Str

//json:json
type Map map[string]I8

//json:json
type Named string
