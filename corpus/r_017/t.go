package r17

//json:json
//json:strict
type A struct {
	Last  [][]float64       `json:"f0"`
	Out   map[string]uint16 `json:"@t,required"`
	Obj   *TStr             `json:"data-set"`
	Kind  map[string]NI32   `json:"value"`
	Prev  uint              `json:"a.b"`
	Zz    map[string]int64  `json:"user:id,omitempty"`
	Note  []*uint           `json:"f6"`
	Rate  [][]int32         `json:"x,omitempty"`
	Cc    map[string]*int   `json:"cc,required"`
	Idx   map[string]NStr   `json:"map"`
	A     int64             `json:"n_1,omitempty"`
	Path  *uint16           `json:"s,omitempty"`
	B     map[NStr]NU8      `json:"f12"`
	X1    []*uint32         `json:"x1"`
	First bool              `json:"f14" default:"false"`
	K2    uint32            `json:"имя,omitempty"`
	Total [][]int16         `json:"total"`
}

type NStr string

type NI32 int32

type NU8 uint8

//json:json
type TStr string
