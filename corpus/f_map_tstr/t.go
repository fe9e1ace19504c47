package f_map_tstr

//json:json
type T1 struct {
	A0 int             `json:"a0,omitempty"`
	F  map[string]TStr `json:"f"`
	Z  string          `json:"z"`
}

//json:json
type T2 struct {
	F map[string]TStr `json:"f,omitempty"`
	G map[string]TStr `json:"g"`
	H map[string]TStr `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]TStr `json:"f,required"`
	B bool            `json:"b"`
}

//json:json
type TStr string
