package f_nmap_p_string

//json:json
type T1 struct {
	A0 int              `json:"a0,omitempty"`
	F  map[NStr]*string `json:"f"`
	Z  string           `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]*string `json:"f,omitempty"`
	G map[NStr]*string `json:"g"`
	H map[NStr]*string `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]*string `json:"f,required"`
	B bool             `json:"b"`
}

type NStr string
