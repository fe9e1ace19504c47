package f_s_nf64

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  []NF64 `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F []NF64 `json:"f,omitempty"`
	G []NF64 `json:"g"`
	H []NF64 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []NF64 `json:"f,required"`
	B bool   `json:"b"`
}

type NF64 float64
