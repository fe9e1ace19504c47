package f_uint8

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  uint8  `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F uint8 `json:"f,omitempty"`
	G uint8 `json:"g"`
	H uint8 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F uint8 `json:"f,required"`
	B bool  `json:"b"`
}

//json:json
type T4 struct {
	A0 uint8 `json:"a0"`
	F  uint8 `json:"f,omitempty" default:"42"`
	G  uint8 `json:"g" default:"42"`
}
