package f_tarr8

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  TArr8  `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F TArr8 `json:"f,omitempty"`
	G TArr8 `json:"g"`
	H TArr8 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F TArr8 `json:"f,required"`
	B bool  `json:"b"`
}

//json:json
type TArr8 [8]byte
