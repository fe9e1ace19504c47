package r68

// json:strict
type T9 struct {
	Tags  []TStr           `json:"data-set,omitempty"`
	Mode  []bool           `json:"value,omitempty"`
	Host  uint16           `json:"$v,required"`
	Cc    map[string]*int8 `json:"cc"`
	Port  TI32             `json:"kind_of,omitempty" default:"1"`
	K2    map[string]int16 `json:"id,omitempty"`
	Val   map[NStr]*NStr   `json:"val,omitempty"`
	URL   uint8            `json:"url"`
	X1    []string         `json:"x1"`
	Path  [1]TSliceI       `json:"f9,omitempty"`
	Obj   [][]TMapI        `json:"f10"`
	Übung map[NStr]int64   `json:"n_1,omitempty"`
	Rate  *int8            `json:"@t"`
	Items []TSliceI        `json:"f13"`
	Flag  []uint16         `json:"flag"`
}

type NStr string

//json:json
type TSliceI []int

//json:json
type TMapI map[string]int

//json:json
type TI32 int32

//json:json
type TStr string
