package f_nmap_nbool

//json:json
type T1 struct {
	A0 int            `json:"a0,omitempty"`
	F  map[NStr]NBool `json:"f"`
	Z  string         `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]NBool `json:"f,omitempty"`
	G map[NStr]NBool `json:"g"`
	H map[NStr]NBool `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]NBool `json:"f,required"`
	B bool           `json:"b"`
}

type NStr string

type NBool bool
