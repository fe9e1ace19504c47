package f_nmap_nstr

//json:json
type T1 struct {
	A0 int           `json:"a0,omitempty"`
	F  map[NStr]NStr `json:"f"`
	Z  string        `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]NStr `json:"f,omitempty"`
	G map[NStr]NStr `json:"g"`
	H map[NStr]NStr `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]NStr `json:"f,required"`
	B bool          `json:"b"`
}

type NStr string
