package f_nmap_tstr

//json:json
type T1 struct {
	A0 int           `json:"a0,omitempty"`
	F  map[NStr]TStr `json:"f"`
	Z  string        `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]TStr `json:"f,omitempty"`
	G map[NStr]TStr `json:"g"`
	H map[NStr]TStr `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]TStr `json:"f,required"`
	B bool          `json:"b"`
}

type NStr string

//json:json
type TStr string
