package f_map_uint

//json:json
type T1 struct {
	A0 int             `json:"a0,omitempty"`
	F  map[string]uint `json:"f"`
	Z  string          `json:"z"`
}

//json:json
type T2 struct {
	F map[string]uint `json:"f,omitempty"`
	G map[string]uint `json:"g"`
	H map[string]uint `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]uint `json:"f,required"`
	B bool            `json:"b"`
}
