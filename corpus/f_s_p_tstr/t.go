package f_s_p_tstr

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  []*TStr `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F []*TStr `json:"f,omitempty"`
	G []*TStr `json:"g"`
	H []*TStr `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []*TStr `json:"f,required"`
	B bool    `json:"b"`
}

//json:json
type TStr string
