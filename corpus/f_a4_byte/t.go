package f_a4_byte

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  [4]byte `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F [4]byte `json:"f,omitempty"`
	G [4]byte `json:"g"`
	H [4]byte `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [4]byte `json:"f,required"`
	B bool    `json:"b"`
}
