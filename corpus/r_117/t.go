package r117

//json:strict,json
type LongTypeNameOfTheMessage117 struct {
	Length []*uint          `json:"$v,omitempty"`
	Data   map[NStr]Sub     `json:"data,required"`
	Y_z    map[string]int   `json:"y_z,omitempty"`
	Idx    map[string]*NU64 `json:"s,required"`
	Cc     int8             `json:"a.b,omitempty" default:"0"`
	Kind   map[NStr]int16   `json:"kind,omitempty"`
	A      []*TI32          `json:"n_1,omitempty"`
	Mode   [8]int64         `json:"mode,required"`
}

type NStr string

type NU64 uint64

//json:json
type TI32 int32

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
