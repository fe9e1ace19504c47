package base

type Str string

//json:json
type Obj struct {
	A int `json:"a"`
}

type Common struct {
	P *Obj `json:"p"`
	L []Obj `json:"l"`
	M map[string]Str `json:"m"`
}
