package r30

//json:json
//json:strict
type LongTypeNameOfTheMessage30 struct {
	Out    *float32            `json:"out,omitempty"`
	ID     map[NStr]*NStr      `json:"len,required"`
	Übung  map[string]*TI32    `json:"Y2"`
	Unit   []TStr              `json:"f3"`
	URL    map[string]int32    `json:"$v,omitempty"`
	Last   NI32                `json:"last,omitempty" default:"0"`
	Port   [][]Sub             `json:"port,omitempty"`
	Host   [][]NU8             `json:"createdAt,required"`
	Size   [16]NI8             `json:"f8,omitempty"`
	Zz     [][]int32           `json:"a.b"`
	Length NStr                `json:"length"`
	Name   *bool               `json:"f11,omitempty" default:"false"`
	Note   map[string]*float64 `json:"@t,required"`
	Val    map[string]*NInt    `json:"val,required"`
	Obj    []int               `json:"obj"`
	A      TStr                `json:"f15,omitempty"`
	Kind   [][]*float32        `json:"value,required"`
	Data   []*TStr             `json:"data"`
	Meta   map[NStr]int        `json:"err,required"`
	QWERTY []*uint32           `json:"f19,omitempty"`
}

type NStr string

type NInt int

type NI32 int32

type NU8 uint8

type NI8 int8

//json:json
type TI32 int32

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
