package f_a3_tstr

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  [3]TStr `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F [3]TStr `json:"f,omitempty"`
	G [3]TStr `json:"g"`
	H [3]TStr `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]TStr `json:"f,required"`
	B bool    `json:"b"`
}

//json:json
type TStr string
