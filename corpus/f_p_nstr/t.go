package f_p_nstr

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  *NStr  `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F *NStr `json:"f,omitempty"`
	G *NStr `json:"g"`
	H *NStr `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F *NStr `json:"f,required"`
	B bool  `json:"b"`
}

//json:json
type T4 struct {
	A0 *NStr `json:"a0"`
	F  *NStr `json:"f,omitempty" default:"some text"`
	G  *NStr `json:"g" default:"some text"`
}

type NStr string
