package f_s_s_tslicei

//json:json
type T1 struct {
	A0 int         `json:"a0,omitempty"`
	F  [][]TSliceI `json:"f"`
	Z  string      `json:"z"`
}

//json:json
type T2 struct {
	F [][]TSliceI `json:"f,omitempty"`
	G [][]TSliceI `json:"g"`
	H [][]TSliceI `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [][]TSliceI `json:"f,required"`
	B bool        `json:"b"`
}

//json:json
type TSliceI []int
