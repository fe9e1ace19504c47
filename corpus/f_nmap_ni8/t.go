package f_nmap_ni8

//json:json
type T1 struct {
	A0 int          `json:"a0,omitempty"`
	F  map[NStr]NI8 `json:"f"`
	Z  string       `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]NI8 `json:"f,omitempty"`
	G map[NStr]NI8 `json:"g"`
	H map[NStr]NI8 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]NI8 `json:"f,required"`
	B bool         `json:"b"`
}

type NStr string

type NI8 int8
