package r34

//json:strict
type With_Under struct {
	Port   *bool           `json:"port"`
	Idx    NF64            `json:"f1,omitempty"`
	Path   [1]uint64       `json:"f2"`
	Host   *NBool          `json:"host"`
	Last   uint            `json:"value,required"`
	Prev   []*NI32         `json:"f5,omitempty"`
	Tags   [][]int32       `json:"tags"`
	Zz     []*uint16       `json:"type"`
	QWERTY []*Sub          `json:"qwerty,omitempty"`
	Name   map[NStr]NF32   `json:"name,omitempty"`
	Val    [][]*NStr       `json:"ITEMS,required"`
	ID     NPtrI32         `json:"id,omitempty"`
	Next   []*int          `json:"err"`
	Obj    []int64         `json:"f13,omitempty"`
	Cc     map[string]*int `json:"cc,omitempty"`
	Size   [8]float32      `json:"o"`
	Y_z    [3]uint8        `json:"list"`
}

type NStr string

type NI32 int32

type NF32 float32

type NBool bool

type NPtrI32 *int32

type NF64 float64

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
