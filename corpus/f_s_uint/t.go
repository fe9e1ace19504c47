package f_s_uint

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  []uint `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F []uint `json:"f,omitempty"`
	G []uint `json:"g"`
	H []uint `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []uint `json:"f,required"`
	B bool   `json:"b"`
}
