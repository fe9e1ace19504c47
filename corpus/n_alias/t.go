package alias

type ID = int64
type Name = string
type Al = Sub
type Ls = []int
type Mp = map[string]int

//json:json
type Sub struct { X int `json:"x"` }

//json:json
type T1 struct {
	A ID `json:"a"`
	B *ID `json:"b"`
	C []ID `json:"c"`
	D map[string]ID `json:"d"`
	E Name `json:"e,omitempty"`
}
//json:json
type T2 struct {
	A Al `json:"a"`
	B *Al `json:"b"`
	C []Al `json:"c"`
}
//json:json
type T3 struct {
	A Ls `json:"a"`
	B Mp `json:"b"`
}
//json:json
type point struct {
	x int `json:"x"`
	y *string `json:"y,omitempty"`
	z []point `json:"z"`
	m map[string]*point `json:"m"`
}
//json:strict
type points []point
//json:json
type T4 struct {
	A int `json:"a,omitempty,string"`
	B int `json:"b,string,omitempty"`
	C int `json:"c,required,omitempty"`
}
//json:json
type T5 struct {
	points `json:"pp"`
}
