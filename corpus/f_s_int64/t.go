package f_s_int64

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  []int64 `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F []int64 `json:"f,omitempty"`
	G []int64 `json:"g"`
	H []int64 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []int64 `json:"f,required"`
	B bool    `json:"b"`
}
