package r61

//json:json
type Msg struct {
	Length []*uint64          `json:"length"`
	Flag   *bool              `json:"type,omitempty"`
	Next   []bool             `json:"0"`
	Host   *NI32              `json:"host,omitempty" default:"-2147483648"`
	Zz     *TStr              `json:"v,omitempty" default:"a=b"`
	Mode   [][]TStr           `json:"err,required"`
	Meta   []*Sub             `json:"o,required"`
	Port   map[NStr]float64   `json:"value,omitempty"`
	Y_z    []*TBytes          `json:"a.b"`
	Size   map[string]uint16  `json:"id,omitempty"`
	Cc     [][]int16          `json:"f10"`
	Obj    [8]NF64            `json:"@t"`
	Path   map[NStr]NF64      `json:"x"`
	Name   []uint32           `json:"name,omitempty"`
	QWERTY map[string]*uint16 `json:"Title"`
	Idx    map[NStr]NI8       `json:"f15"`
}

type NStr string

type NI32 int32

type NI8 int8

type NF64 float64

//json:json
type TBytes []byte

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
