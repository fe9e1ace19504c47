package f_map_uint8

//json:json
type T1 struct {
	A0 int              `json:"a0,omitempty"`
	F  map[string]uint8 `json:"f"`
	Z  string           `json:"z"`
}

//json:json
type T2 struct {
	F map[string]uint8 `json:"f,omitempty"`
	G map[string]uint8 `json:"g"`
	H map[string]uint8 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]uint8 `json:"f,required"`
	B bool             `json:"b"`
}
