package types

type Name string

//json:json
type Obj struct {
	A int `json:"a"`
}

type Common struct {
	X int `json:"x"`
}
