package f_nmap_uint

//json:json
type T1 struct {
	A0 int           `json:"a0,omitempty"`
	F  map[NStr]uint `json:"f"`
	Z  string        `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]uint `json:"f,omitempty"`
	G map[NStr]uint `json:"g"`
	H map[NStr]uint `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]uint `json:"f,required"`
	B bool          `json:"b"`
}

type NStr string
