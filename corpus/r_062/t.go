package r62

// T9 is documented.
//
//json:json
type T9 struct {
	Length []Sub               `json:"x,omitempty"`
	Rate   []uint64            `json:"f1"`
	Path   []*NBool            `json:"@t"`
	Obj    []*NInt             `json:"obj"`
	B      map[string]*float64 `json:"12,omitempty"`
	Cc     []int64             `json:"f5,omitempty"`
	First  []*uint16           `json:"$v,required"`
	Name   map[string]uint8    `json:"type,omitempty"`
	Idx    map[NStr]NI8        `json:"name"`
	Total  map[string]*TStr    `json:"o"`
	K2     [][]TSliceI         `json:"f10,omitempty"`
	Size   [][]Sub             `json:"ITEMS"`
	Items  *float32            `json:"items,omitempty" default:"2.5"`
	Zz     TStr                `json:"a.b,required"`
	Next   map[string]*uint32  `json:"f14"`
	Data   map[NStr]NInt       `json:"user:id,omitempty"`
	Last   map[NStr]NStr       `json:"v,omitempty"`
	A      [100]NStr           `json:"0,required"`
	Out    map[string]int32    `json:"out"`
	Prev   [8]float64          `json:"prev"`
	Port   [8]NU8              `json:"value"`
	Unit   [][]uint64          `json:"f21"`
	Val    NF64                `json:"f22,omitempty"`
	Tags   map[NStr]NU64       `json:"Title"`
}

type NStr string

type NInt int

type NU8 uint8

type NBool bool

type NI8 int8

type NU64 uint64

type NF64 float64

//json:json
type TSliceI []int

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
