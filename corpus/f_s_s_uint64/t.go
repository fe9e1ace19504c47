package f_s_s_uint64

//json:json
type T1 struct {
	A0 int        `json:"a0,omitempty"`
	F  [][]uint64 `json:"f"`
	Z  string     `json:"z"`
}

//json:json
type T2 struct {
	F [][]uint64 `json:"f,omitempty"`
	G [][]uint64 `json:"g"`
	H [][]uint64 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [][]uint64 `json:"f,required"`
	B bool       `json:"b"`
}
