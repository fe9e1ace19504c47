package embed

//json:json
type Base struct {
	A int    `json:"a"`
	B string `json:"b"`
}

//json:json
type T1 struct {
	Base `json:"base"`
	C    int `json:"c"`
}

//json:strict
type T2 struct {
	C    int `json:"c"`
	Base `json:"base,omitempty"`
}

//json:json
type T3 struct {
	Base `json:"base,required"`
	L    []Base `json:"l"`
}
