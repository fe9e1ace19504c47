package r0

//json:strict
type lower0 struct {
	Last   [][]*int8        `json:"Title,omitempty"`
	Tags   [][]float64      `json:"len,omitempty"`
	Port   []*uint8         `json:"port,omitempty"`
	Items  [1]int32         `json:"err,omitempty"`
	Obj    map[string]int64 `json:"f4,required"`
	Data   TSliceI          `json:"result,required"`
	Cc     []byte           `json:"f6,omitempty"`
	Size   []uint32         `json:"createdAt,omitempty"`
	K2     []*int64         `json:"k2,omitempty"`
	Rate   map[string]bool  `json:"_p"`
	B      string           `json:"f10"`
	Out    *NBool           `json:"out,omitempty"`
	QWERTY [][]uint64       `json:"ITEMS,required"`
}

type NBool bool

//json:json
type TSliceI []int
