package f_s_uint32

//json:json
type T1 struct {
	A0 int      `json:"a0,omitempty"`
	F  []uint32 `json:"f"`
	Z  string   `json:"z"`
}

//json:json
type T2 struct {
	F []uint32 `json:"f,omitempty"`
	G []uint32 `json:"g"`
	H []uint32 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []uint32 `json:"f,required"`
	B bool     `json:"b"`
}
