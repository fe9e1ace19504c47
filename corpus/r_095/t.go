package r95

// json: strict
type A struct {
	Tags   map[string]uint16 `json:"f0"`
	Note   [1]int32          `json:"name,omitempty"`
	URL    [][]NU64          `json:"url"`
	Cc     map[string]int16  `json:"cc,omitempty"`
	Total  [3]NF64           `json:"total"`
	Next   [2]uint32         `json:"o"`
	QWERTY []int16           `json:"f6,omitempty"`
	Y_z    map[NStr]NI8      `json:"y_z,omitempty"`
	Length [4]byte           `json:"length"`
	Mode   bool              `json:"createdAt,required"`
	K2     *TI32             `json:"id"`
	First  [][]bool          `json:"s"`
	Übung  map[NStr]*bool    `json:"n_1"`
	X1     NStr              `json:"f13,omitempty" default:"x"`
	Zz     map[NStr]NBool    `json:"zz"`
	Prev   []*NF64           `json:"12,required"`
	Port   map[NStr]uint64   `json:"port"`
	Code   [8]NI8            `json:"code,omitempty"`
	Val    [][]uint32        `json:"val"`
	Idx    map[string]NStr   `json:"f19"`
}

type NStr string

type NBool bool

type NI8 int8

type NU64 uint64

type NF64 float64

//json:json
type TI32 int32
