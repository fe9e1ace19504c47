package r29

//json:json
type T struct {
	Name   [][]TMapS           `json:"s"`
	Meta   []int8              `json:"f1,omitempty"`
	Next   *float64            `json:"name"`
	Host   map[string]NF32     `json:"Y2"`
	Kind   []*int16            `json:"f4,omitempty"`
	Length map[NStr]uint16     `json:"list,omitempty"`
	Idx    map[string]float64  `json:"f6"`
	Flag   map[NStr]int16      `json:"flag"`
	Übung  []NBool             `json:"übung,omitempty"`
	Path   map[string]TStr     `json:"12"`
	Tags   [][]bool            `json:"result,omitempty"`
	Mode   map[string]*float64 `json:"mode,omitempty"`
	First  TSliceI             `json:"f12,required"`
	Total  [3]int32            `json:"f13"`
	Unit   NI8                 `json:"v,omitempty" default:"100"`
	Note   map[NStr]int64      `json:"note,omitempty"`
	Zz     [3]uint64           `json:"f16,required"`
	Y_z    [][]NU8             `json:"y_z"`
	A      map[NStr]bool       `json:"len,omitempty"`
	X1     [3]uint16           `json:"n_1"`
}

type NStr string

type NU8 uint8

type NF32 float32

type NBool bool

type NI8 int8

//json:json
type TSliceI []int

//json:json
type TMapS map[string]Sub

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
