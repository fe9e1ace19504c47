package r38

// json:strict
type With_Under struct {
	Next   TStr             `json:"f0"`
	Host   []*NInt          `json:"Title,omitempty"`
	Port   [][]NF64         `json:"type,required"`
	Size   [][]int16        `json:"size,omitempty"`
	Kind   NU8              `json:"list,omitempty" default:"200"`
	QWERTY map[NStr]*bool   `json:"id"`
	Prev   map[string]NInt  `json:"prev"`
	Name   TStr             `json:"12"`
	Unit   Sub              `json:"0"`
	Tags   [][]TSub2        `json:"len,required"`
	X1     map[string]*NStr `json:"s,omitempty"`
	Out    [][]NF32         `json:"err"`
	Val    []*NF32          `json:"value,required"`
	K2     []TI32           `json:"Y2,omitempty"`
}

type NStr string

type NInt int

type NU8 uint8

type NF32 float32

type NF64 float64

//json:json
type TI32 int32

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
