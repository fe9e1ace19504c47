package f_s_s_uint16

//json:json
type T1 struct {
	A0 int        `json:"a0,omitempty"`
	F  [][]uint16 `json:"f"`
	Z  string     `json:"z"`
}

//json:json
type T2 struct {
	F [][]uint16 `json:"f,omitempty"`
	G [][]uint16 `json:"g"`
	H [][]uint16 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [][]uint16 `json:"f,required"`
	B bool       `json:"b"`
}
