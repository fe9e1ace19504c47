package f_nmap_int

//json:json
type T1 struct {
	A0 int          `json:"a0,omitempty"`
	F  map[NStr]int `json:"f"`
	Z  string       `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]int `json:"f,omitempty"`
	G map[NStr]int `json:"g"`
	H map[NStr]int `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]int `json:"f,required"`
	B bool         `json:"b"`
}

type NStr string
