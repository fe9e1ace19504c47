package r23

//json:strict
type T9 struct {
	URL   [][]int16        `json:"name,omitempty"`
	First []uint8          `json:"first"`
	K2    map[string]*NF32 `json:"key"`
	Val   map[string]*NStr `json:"val"`
	Y_z   map[string]NF64  `json:"Y2,omitempty"`
	B     map[NStr]string  `json:"b"`
	Mode  []*int8          `json:"kind_of"`
	Host  []*NStr          `json:"o,omitempty"`
	Übung float32          `json:"f8,omitempty"`
	Total [][]int8         `json:"total,omitempty"`
}

type NStr string

type NF32 float32

type NF64 float64
