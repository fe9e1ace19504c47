package f_a3_nf32

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  [3]NF32 `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F [3]NF32 `json:"f,omitempty"`
	G [3]NF32 `json:"g"`
	H [3]NF32 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]NF32 `json:"f,required"`
	B bool    `json:"b"`
}

type NF32 float32
