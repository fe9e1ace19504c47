package base

type Str string

//json:json
type Obj struct {
	A int `json:"a"`
}

type Common struct {
	S Str `json:"s"`
	O Obj `json:"o"`
}
