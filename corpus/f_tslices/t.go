package f_tslices

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  TSliceS `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F TSliceS `json:"f,omitempty"`
	G TSliceS `json:"g"`
	H TSliceS `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F TSliceS `json:"f,required"`
	B bool    `json:"b"`
}

//json:json
type TSliceS []Sub

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
