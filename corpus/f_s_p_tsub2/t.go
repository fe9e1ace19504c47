package f_s_p_tsub2

//json:json
type T1 struct {
	A0 int      `json:"a0,omitempty"`
	F  []*TSub2 `json:"f"`
	Z  string   `json:"z"`
}

//json:json
type T2 struct {
	F []*TSub2 `json:"f,omitempty"`
	G []*TSub2 `json:"g"`
	H []*TSub2 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []*TSub2 `json:"f,required"`
	B bool     `json:"b"`
}

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
