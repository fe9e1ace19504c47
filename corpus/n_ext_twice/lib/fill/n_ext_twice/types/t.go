package types

type Str string

type Num int16

//json:json
type Obj struct {
	A int `json:"a"`
}

type Base struct {
	ID   int    `json:"id"`
	Name string `json:"name,omitempty"`
}
