package r119

//json:strict,json
type Öffnung struct {
	Length map[string]uint `json:"f0,required"`
	Unit   map[NStr]uint   `json:"f1"`
	URL    map[NStr]int8   `json:"f2,required"`
	Obj    [][]*bool       `json:"@t"`
	QWERTY *NU64           `json:"12,omitempty"`
	ID     []int16         `json:"id"`
	X1     *NPtrI32        `json:"0,omitempty"`
	Flag   [1]NF64         `json:"f7"`
	Übung  *NI32           `json:"x" default:"-2147483648"`
	Items  [4]byte         `json:"items"`
}

type NStr string

type NI32 int32

type NPtrI32 *int32

type NU64 uint64

type NF64 float64
