package f_s_s_int16

//json:json
type T1 struct {
	A0 int       `json:"a0,omitempty"`
	F  [][]int16 `json:"f"`
	Z  string    `json:"z"`
}

//json:json
type T2 struct {
	F [][]int16 `json:"f,omitempty"`
	G [][]int16 `json:"g"`
	H [][]int16 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [][]int16 `json:"f,required"`
	B bool      `json:"b"`
}
