package f_tmaps

//json:json
type T1 struct {
	A0 int    `json:"a0,omitempty"`
	F  TMapS  `json:"f"`
	Z  string `json:"z"`
}

//json:json
type T2 struct {
	F TMapS `json:"f,omitempty"`
	G TMapS `json:"g"`
	H TMapS `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F TMapS `json:"f,required"`
	B bool  `json:"b"`
}

//json:json
type TMapS map[string]Sub

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
