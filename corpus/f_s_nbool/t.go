package f_s_nbool

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  []NBool `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F []NBool `json:"f,omitempty"`
	G []NBool `json:"g"`
	H []NBool `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []NBool `json:"f,required"`
	B bool    `json:"b"`
}

type NBool bool
