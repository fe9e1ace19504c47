package f_nmapi

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  NMapI  `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F NMapI `json:"f,omitempty"`
	G NMapI `json:"g"`
	H NMapI `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F NMapI `json:"f,required"`
	B bool  `json:"b"`
}

type NMapI map[string]int
