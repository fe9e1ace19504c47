package f_a3_tslicei

//json:json
type T1 struct {
	A0 int        `json:"a0,omitempty"`
	F  [3]TSliceI `json:"f"`
	Z  string     `json:"z"`
}

//json:json
type T2 struct {
	F [3]TSliceI `json:"f,omitempty"`
	G [3]TSliceI `json:"g"`
	H [3]TSliceI `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]TSliceI `json:"f,required"`
	B bool       `json:"b"`
}

//json:json
type TSliceI []int
