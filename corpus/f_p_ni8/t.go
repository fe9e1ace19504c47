package f_p_ni8

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  *NI8   `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F *NI8 `json:"f,omitempty"`
	G *NI8 `json:"g"`
	H *NI8 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F *NI8 `json:"f,required"`
	B bool `json:"b"`
}

//json:json
type T4 struct {
	A0 *NI8 `json:"a0"`
	F  *NI8 `json:"f,omitempty" default:"-17"`
	G  *NI8 `json:"g" default:"-17"`
}

type NI8 int8
