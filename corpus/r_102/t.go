package r102

//json:json
type Msg102 struct {
	Port   uint16   `json:"$v,required"`
	Length [][]TStr `json:"w,omitempty"`
	Kind   *string  `json:"kind,required"`
	Unit   []*TStr  `json:"f3,required"`
	Last   []NI8    `json:"_p,omitempty"`
}

type NI8 int8

//json:json
type TStr string
