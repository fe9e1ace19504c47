package f_map_p_nstr

//json:json
type T1 struct {
	A0 int              `json:"a0,omitempty"`
	F  map[string]*NStr `json:"f"`
	Z  string           `json:"z"`
}

//json:json
type T2 struct {
	F map[string]*NStr `json:"f,omitempty"`
	G map[string]*NStr `json:"g"`
	H map[string]*NStr `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]*NStr `json:"f,required"`
	B bool             `json:"b"`
}

type NStr string
