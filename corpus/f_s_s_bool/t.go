package f_s_s_bool

//json:json
type T1 struct {
	A0 int      `json:"a0,omitempty"`
	F  [][]bool `json:"f"`
	Z  string   `json:"z"`
}

//json:json
type T2 struct {
	F [][]bool `json:"f,omitempty"`
	G [][]bool `json:"g"`
	H [][]bool `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [][]bool `json:"f,required"`
	B bool     `json:"b"`
}
