package f_s_s_tmapi

//json:json
type T1 struct {
	A0 int       `json:"a0,omitempty"`
	F  [][]TMapI `json:"f"`
	Z  string    `json:"z"`
}

//json:json
type T2 struct {
	F [][]TMapI `json:"f,omitempty"`
	G [][]TMapI `json:"g"`
	H [][]TMapI `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [][]TMapI `json:"f,required"`
	B bool      `json:"b"`
}

//json:json
type TMapI map[string]int
