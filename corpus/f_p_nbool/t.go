package f_p_nbool

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  *NBool `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F *NBool `json:"f,omitempty"`
	G *NBool `json:"g"`
	H *NBool `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F *NBool `json:"f,required"`
	B bool   `json:"b"`
}

//json:json
type T4 struct {
	A0 *NBool `json:"a0"`
	F  *NBool `json:"f,omitempty" default:"true"`
	G  *NBool `json:"g" default:"true"`
}

type NBool bool
