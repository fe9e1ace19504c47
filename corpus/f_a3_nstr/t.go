package f_a3_nstr

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  [3]NStr `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F [3]NStr `json:"f,omitempty"`
	G [3]NStr `json:"g"`
	H [3]NStr `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]NStr `json:"f,required"`
	B bool    `json:"b"`
}

type NStr string
