package r63

//json:json
//json:strict
type HTTPReply63 struct {
	Prev   [][]*bool         `json:"err,omitempty"`
	URL    NSliceI           `json:"w"`
	K2     NBool             `json:"result"`
	Flag   *float32          `json:"flag" default:"-1"`
	Note   bool              `json:"n_1,omitempty" default:"true"`
	Cc     []int32           `json:"Title,omitempty"`
	Zz     [1]NU64           `json:"f6,omitempty"`
	Unit   []*NInt           `json:"f7,omitempty"`
	A      map[NStr]NF64     `json:"f8,omitempty"`
	ID     NBytes            `json:"o"`
	Name   map[NStr]int16    `json:"s"`
	QWERTY map[string]uint32 `json:"f11,required"`
	Last   []*int16          `json:"x,omitempty"`
	Total  map[NStr]TI32     `json:"total,required"`
	Idx    *int8             `json:"$v"`
}

type NStr string

type NInt int

type NBool bool

type NU64 uint64

type NF64 float64

type NBytes []byte

type NSliceI []int

//json:json
type TI32 int32
