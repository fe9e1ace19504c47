package f_s_p_string

//json:json
type T1 struct {
	A0 int       `json:"a0,omitempty"`
	F  []*string `json:"f"`
	Z  string    `json:"z"`
}

//json:json
type T2 struct {
	F []*string `json:"f,omitempty"`
	G []*string `json:"g"`
	H []*string `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []*string `json:"f,required"`
	B bool      `json:"b"`
}
