package f_p_float32

//json:json
type T1 struct {
	A0 int      `json:"a0,omitempty"`
	F  *float32 `json:"f"`
	Z  string   `json:"z"`
}

//json:json
type T2 struct {
	F *float32 `json:"f,omitempty"`
	G *float32 `json:"g"`
	H *float32 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F *float32 `json:"f,required"`
	B bool     `json:"b"`
}

//json:json
type T4 struct {
	A0 *float32 `json:"a0"`
	F  *float32 `json:"f,omitempty" default:"2.5"`
	G  *float32 `json:"g" default:"2.5"`
}
