package f_nmap_sub

//json:json
type T1 struct {
	A0 int          `json:"a0,omitempty"`
	F  map[NStr]Sub `json:"f"`
	Z  string       `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]Sub `json:"f,omitempty"`
	G map[NStr]Sub `json:"g"`
	H map[NStr]Sub `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]Sub `json:"f,required"`
	B bool         `json:"b"`
}

type NStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
