package f_a3_int

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  [3]int `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F [3]int `json:"f,omitempty"`
	G [3]int `json:"g"`
	H [3]int `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]int `json:"f,required"`
	B bool   `json:"b"`
}
