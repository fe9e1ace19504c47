package f_int8

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  int8   `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F int8 `json:"f,omitempty"`
	G int8 `json:"g"`
	H int8 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F int8 `json:"f,required"`
	B bool `json:"b"`
}

//json:json
type T4 struct {
	A0 int8 `json:"a0"`
	F  int8 `json:"f,omitempty" default:"-17"`
	G  int8 `json:"g" default:"-17"`
}
