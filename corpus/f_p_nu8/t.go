package f_p_nu8

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  *NU8   `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F *NU8 `json:"f,omitempty"`
	G *NU8 `json:"g"`
	H *NU8 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F *NU8 `json:"f,required"`
	B bool `json:"b"`
}

//json:json
type T4 struct {
	A0 *NU8 `json:"a0"`
	F  *NU8 `json:"f,omitempty" default:"42"`
	G  *NU8 `json:"g" default:"42"`
}

type NU8 uint8
