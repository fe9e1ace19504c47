package f_a3_nint

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  [3]NInt `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F [3]NInt `json:"f,omitempty"`
	G [3]NInt `json:"g"`
	H [3]NInt `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]NInt `json:"f,required"`
	B bool    `json:"b"`
}

type NInt int
