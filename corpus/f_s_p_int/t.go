package f_s_p_int

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  []*int `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F []*int `json:"f,omitempty"`
	G []*int `json:"g"`
	H []*int `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []*int `json:"f,required"`
	B bool   `json:"b"`
}
