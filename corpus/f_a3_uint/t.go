package f_a3_uint

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  [3]uint `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F [3]uint `json:"f,omitempty"`
	G [3]uint `json:"g"`
	H [3]uint `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]uint `json:"f,required"`
	B bool    `json:"b"`
}
