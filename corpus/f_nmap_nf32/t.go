package f_nmap_nf32

//json:json
type T1 struct {
	A0 int           `json:"a0,omitempty"`
	F  map[NStr]NF32 `json:"f"`
	Z  string        `json:"z"`
}

//json:json
type T2 struct {
	F map[NStr]NF32 `json:"f,omitempty"`
	G map[NStr]NF32 `json:"g"`
	H map[NStr]NF32 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[NStr]NF32 `json:"f,required"`
	B bool          `json:"b"`
}

type NStr string

type NF32 float32
