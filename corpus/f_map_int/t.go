package f_map_int

//json:json
type T1 struct {
	A0 int            `json:"a0,omitempty"`
	F  map[string]int `json:"f"`
	Z  string         `json:"z"`
}

//json:json
type T2 struct {
	F map[string]int `json:"f,omitempty"`
	G map[string]int `json:"g"`
	H map[string]int `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]int `json:"f,required"`
	B bool           `json:"b"`
}
