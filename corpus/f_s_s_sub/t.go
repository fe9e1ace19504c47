package f_s_s_sub

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  [][]Sub `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F [][]Sub `json:"f,omitempty"`
	G [][]Sub `json:"g"`
	H [][]Sub `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [][]Sub `json:"f,required"`
	B bool    `json:"b"`
}

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
