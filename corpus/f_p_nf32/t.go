package f_p_nf32

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  *NF32  `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F *NF32 `json:"f,omitempty"`
	G *NF32 `json:"g"`
	H *NF32 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F *NF32 `json:"f,required"`
	B bool  `json:"b"`
}

//json:json
type T4 struct {
	A0 *NF32 `json:"a0"`
	F  *NF32 `json:"f,omitempty" default:"2.5"`
	G  *NF32 `json:"g" default:"2.5"`
}

type NF32 float32
