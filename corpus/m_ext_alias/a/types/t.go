package types

type Str string

//json:strict
type Obj struct {
	A int `json:"a"`
}
