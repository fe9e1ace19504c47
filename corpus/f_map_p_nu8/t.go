package f_map_p_nu8

//json:json
type T1 struct {
	A0 int             `json:"a0,omitempty"`
	F  map[string]*NU8 `json:"f"`
	Z  string          `json:"z"`
}

//json:json
type T2 struct {
	F map[string]*NU8 `json:"f,omitempty"`
	G map[string]*NU8 `json:"g"`
	H map[string]*NU8 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]*NU8 `json:"f,required"`
	B bool            `json:"b"`
}

type NU8 uint8
