package f_map_p_bool

//json:json
type T1 struct {
	A0 int              `json:"a0,omitempty"`
	F  map[string]*bool `json:"f"`
	Z  string           `json:"z"`
}

//json:json
type T2 struct {
	F map[string]*bool `json:"f,omitempty"`
	G map[string]*bool `json:"g"`
	H map[string]*bool `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]*bool `json:"f,required"`
	B bool             `json:"b"`
}
