package f_nslicei

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  NSliceI `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F NSliceI `json:"f,omitempty"`
	G NSliceI `json:"g"`
	H NSliceI `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F NSliceI `json:"f,required"`
	B bool    `json:"b"`
}

type NSliceI []int
