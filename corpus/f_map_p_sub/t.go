package f_map_p_sub

//json:json
type T1 struct {
	A0 int             `json:"a0,omitempty"`
	F  map[string]*Sub `json:"f"`
	Z  string          `json:"z"`
}

//json:json
type T2 struct {
	F map[string]*Sub `json:"f,omitempty"`
	G map[string]*Sub `json:"g"`
	H map[string]*Sub `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]*Sub `json:"f,required"`
	B bool            `json:"b"`
}

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
