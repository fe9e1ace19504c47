package f_map_p_string

//json:json
type T1 struct {
	A0 int                `json:"a0,omitempty"`
	F  map[string]*string `json:"f"`
	Z  string             `json:"z"`
}

//json:json
type T2 struct {
	F map[string]*string `json:"f,omitempty"`
	G map[string]*string `json:"g"`
	H map[string]*string `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]*string `json:"f,required"`
	B bool               `json:"b"`
}
