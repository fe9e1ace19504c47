package f_map_p_nbool

//json:json
type T1 struct {
	A0 int               `json:"a0,omitempty"`
	F  map[string]*NBool `json:"f"`
	Z  string            `json:"z"`
}

//json:json
type T2 struct {
	F map[string]*NBool `json:"f,omitempty"`
	G map[string]*NBool `json:"g"`
	H map[string]*NBool `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]*NBool `json:"f,required"`
	B bool              `json:"b"`
}

type NBool bool
