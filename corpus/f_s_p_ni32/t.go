package f_s_p_ni32

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  []*NI32 `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F []*NI32 `json:"f,omitempty"`
	G []*NI32 `json:"g"`
	H []*NI32 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []*NI32 `json:"f,required"`
	B bool    `json:"b"`
}

type NI32 int32
