package base

//json:json
type Obj struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//json:json
type Lst []Obj

type Num int
type Txt string
type Flo float32
type Flg bool
