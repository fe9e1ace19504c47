package f_uint16

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  uint16 `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F uint16 `json:"f,omitempty"`
	G uint16 `json:"g"`
	H uint16 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F uint16 `json:"f,required"`
	B bool   `json:"b"`
}

//json:json
type T4 struct {
	A0 uint16 `json:"a0"`
	F  uint16 `json:"f,omitempty" default:"42"`
	G  uint16 `json:"g" default:"42"`
}
