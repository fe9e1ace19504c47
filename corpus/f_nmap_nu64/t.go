package f_nmap_nu64

//json:json
type T1 struct {
	A0 int           `json:"a0,omitempty"`
	F  map[NStr]NU64 `json:"f"`
	Z  string        `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]NU64 `json:"f,omitempty"`
	G map[NStr]NU64 `json:"g"`
	H map[NStr]NU64 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]NU64 `json:"f,required"`
	B bool          `json:"b"`
}

type NStr string

type NU64 uint64
