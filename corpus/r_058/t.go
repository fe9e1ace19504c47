package r58

// json:strict
type lower struct {
	Zz     []*int16           `json:"名"`
	K2     map[NStr]NU8       `json:"_p"`
	Rate   [][]*string        `json:"f2,omitempty"`
	Kind   [1]NBool           `json:"err,omitempty"`
	QWERTY NMapI              `json:"12,omitempty"`
	Prev   int16              `json:"prev"`
	Mode   [][]float32        `json:"a.b"`
	URL    [][]TSub2          `json:"f7"`
	X1     []TStr             `json:"x1,required"`
	Cc     []*int32           `json:"$v,omitempty"`
	Y_z    *float32           `json:"list"`
	Name   []float32          `json:"key,omitempty"`
	Size   []*int64           `json:"value,omitempty"`
	Length []NI8              `json:"length,omitempty"`
	Meta   TI32               `json:"meta"`
	Out    map[string]*NF64   `json:"type,omitempty"`
	Obj    map[string]*uint32 `json:"obj"`
	ID     []*int8            `json:"Title,omitempty"`
	Items  *uint              `json:"data-set,omitempty"`
	Host   map[string]*uint   `json:"host,required"`
	Last   []int8             `json:"kind_of"`
	Total  []*int64           `json:"user:id,required"`
	Data   int64              `json:"data,omitempty"`
	Code   map[string]*uint16 `json:"f23"`
}

type NStr string

type NU8 uint8

type NBool bool

type NI8 int8

type NF64 float64

type NMapI map[string]int

//json:json
type TI32 int32

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
