package f_s_s_int32

//json:json
type T1 struct {
	A0 int       `json:"a0,omitempty"`
	F  [][]int32 `json:"f"`
	Z  string    `json:"z"`
}

//json:json
type T2 struct {
	F [][]int32 `json:"f,omitempty"`
	G [][]int32 `json:"g"`
	H [][]int32 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [][]int32 `json:"f,required"`
	B bool      `json:"b"`
}
