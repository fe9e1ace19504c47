package f_nbytes

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  NBytes `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F NBytes `json:"f,omitempty"`
	G NBytes `json:"g"`
	H NBytes `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F NBytes `json:"f,required"`
	B bool   `json:"b"`
}

type NBytes []byte
