package r47

// json:strict
type Öffnung struct {
	Name  uint16           `json:"n_1,omitempty"`
	Meta  map[NStr]NF32    `json:"w,omitempty"`
	Cc    map[NStr]float64 `json:"f2,required"`
	B     TStr             `json:"f3"`
	Path  map[string]uint8 `json:"path"`
	Host  map[NStr]int64   `json:"host"`
	Data  map[string]TI32  `json:"data"`
	Out   []TSliceI        `json:"f7"`
	Port  []uint16         `json:"o,omitempty"`
	Total []*float64       `json:"total"`
	Code  *int16           `json:"f10" default:"-1"`
	Last  TMapS            `json:"value,required"`
}

type NStr string

type NF32 float32

//json:json
type TSliceI []int

//json:json
type TMapS map[string]Sub

//json:json
type TI32 int32

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
