package embed

type N int
type S string
type O bool
type FF float64
type F []int
type B []byte

//json:json
type D struct {
	N  `json:"n"`
	S  `json:"s,omitempty"`
	O  `json:"o"`
	FF `json:"ff,required"`
}

//json:strict
type D2 struct {
	F `json:"f"`
	B `json:"b"`
	X int `json:"x" default:"3"`
}

//json:json
type D3 struct {
	N `json:"n" default:"4"`
	S `json:"s" default:"text"`
	O `json:"o,omitempty"`
	FF `json:"ff,omitempty"`
}

//json:json
type T struct {
	X int `json:"x"`
}

//json:json
type U []int

//json:json
type D4 struct {
	T `json:"t"`
	U `json:"u,omitempty"`
}
