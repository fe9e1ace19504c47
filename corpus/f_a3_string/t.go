package f_a3_string

//json:json
type T1 struct {
	A0 int       `json:"a0,omitempty"`
	F  [3]string `json:"f"`
	Z  string    `json:"z"`
}

//json:json
type T2 struct {
	F [3]string `json:"f,omitempty"`
	G [3]string `json:"g"`
	H [3]string `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]string `json:"f,required"`
	B bool      `json:"b"`
}
