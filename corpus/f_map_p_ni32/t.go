package f_map_p_ni32

//json:json
type T1 struct {
	A0 int              `json:"a0,omitempty"`
	F  map[string]*NI32 `json:"f"`
	Z  string           `json:"z"`
}

//json:json
type T2 struct {
	F map[string]*NI32 `json:"f,omitempty"`
	G map[string]*NI32 `json:"g"`
	H map[string]*NI32 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]*NI32 `json:"f,required"`
	B bool             `json:"b"`
}

type NI32 int32
