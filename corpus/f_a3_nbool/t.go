package f_a3_nbool

//json:json
type T1 struct {
	A0 int      `json:"a0,omitempty"`
	F  [3]NBool `json:"f"`
	Z  string   `json:"z"`
}

//json:json
type T2 struct {
	F [3]NBool `json:"f,omitempty"`
	G [3]NBool `json:"g"`
	H [3]NBool `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]NBool `json:"f,required"`
	B bool     `json:"b"`
}

type NBool bool
