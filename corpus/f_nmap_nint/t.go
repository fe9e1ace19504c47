package f_nmap_nint

//json:json
type T1 struct {
	A0 int           `json:"a0,omitempty"`
	F  map[NStr]NInt `json:"f"`
	Z  string        `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]NInt `json:"f,omitempty"`
	G map[NStr]NInt `json:"g"`
	H map[NStr]NInt `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]NInt `json:"f,required"`
	B bool          `json:"b"`
}

type NStr string

type NInt int
