package f_map_nint

//json:json
type T1 struct {
	A0 int             `json:"a0,omitempty"`
	F  map[string]NInt `json:"f"`
	Z  string          `json:"z"`
}

//json:json
type T2 struct {
	F map[string]NInt `json:"f,omitempty"`
	G map[string]NInt `json:"g"`
	H map[string]NInt `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]NInt `json:"f,required"`
	B bool            `json:"b"`
}

type NInt int
