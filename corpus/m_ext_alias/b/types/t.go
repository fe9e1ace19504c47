package types

type Str int

//json:json
type Obj struct {
	B string `json:"b"`
	C []int  `json:"c"`
}
