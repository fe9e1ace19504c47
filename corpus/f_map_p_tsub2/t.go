package f_map_p_tsub2

//json:json
type T1 struct {
	A0 int               `json:"a0,omitempty"`
	F  map[string]*TSub2 `json:"f"`
	Z  string            `json:"z"`
}

//json:json
type T2 struct {
	F map[string]*TSub2 `json:"f,omitempty"`
	G map[string]*TSub2 `json:"g"`
	H map[string]*TSub2 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]*TSub2 `json:"f,required"`
	B bool              `json:"b"`
}

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
