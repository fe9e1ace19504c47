package f_s_nu64

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  []NU64 `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F []NU64 `json:"f,omitempty"`
	G []NU64 `json:"g"`
	H []NU64 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []NU64 `json:"f,required"`
	B bool   `json:"b"`
}

type NU64 uint64
