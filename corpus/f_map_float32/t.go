package f_map_float32

//json:json
type T1 struct {
	A0 int                `json:"a0,omitempty"`
	F  map[string]float32 `json:"f"`
	Z  string             `json:"z"`
}

//json:json
type T2 struct {
	F map[string]float32 `json:"f,omitempty"`
	G map[string]float32 `json:"g"`
	H map[string]float32 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F map[string]float32 `json:"f,required"`
	B bool               `json:"b"`
}
