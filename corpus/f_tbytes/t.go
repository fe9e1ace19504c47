package f_tbytes

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  TBytes `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F TBytes `json:"f,omitempty"`
	G TBytes `json:"g"`
	H TBytes `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F TBytes `json:"f,required"`
	B bool   `json:"b"`
}

//json:json
type TBytes []byte
