package f_nmap_p_bool

//json:json
type T1 struct {
	A0 int            `json:"a0,omitempty"`
	F  map[NStr]*bool `json:"f"`
	Z  string         `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]*bool `json:"f,omitempty"`
	G map[NStr]*bool `json:"g"`
	H map[NStr]*bool `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]*bool `json:"f,required"`
	B bool           `json:"b"`
}

type NStr string
