package f_s_nint

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  []NInt `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F []NInt `json:"f,omitempty"`
	G []NInt `json:"g"`
	H []NInt `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []NInt `json:"f,required"`
	B bool   `json:"b"`
}

type NInt int
