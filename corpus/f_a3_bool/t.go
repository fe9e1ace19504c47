package f_a3_bool

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  [3]bool `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F [3]bool `json:"f,omitempty"`
	G [3]bool `json:"g"`
	H [3]bool `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]bool `json:"f,required"`
	B bool    `json:"b"`
}
