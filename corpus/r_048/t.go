package r48

// json:strict
type A48 struct {
	Rate   uint64            `json:"a.b,required"`
	Flag   map[string]NInt   `json:"f1"`
	Kind   [100]uint64       `json:"$v"`
	Path   []NBool           `json:"path"`
	Unit   map[string]NU64   `json:"unit"`
	Meta   *bool             `json:"名" default:"false"`
	QWERTY []*NF32           `json:"qwerty"`
	B      string            `json:"b"`
	Length []TI32            `json:"createdAt"`
	Übung  *NPtrStr          `json:"übung,omitempty"`
	URL    map[NStr]uint32   `json:"s"`
	Items  [][]NU64          `json:"len"`
	Obj    map[string]NF32   `json:"err,required"`
	Name   [2]NInt           `json:"f13"`
	Out    map[string]int8   `json:"12,required"`
	Size   map[NStr]string   `json:"f15"`
	A      int16             `json:"f16,omitempty"`
	Cc     map[NStr]NU8      `json:"f17,omitempty"`
	Next   [][]*int8         `json:"next"`
	First  map[string]*TSub2 `json:"имя,omitempty"`
}

type NStr string

type NInt int

type NU8 uint8

type NF32 float32

type NBool bool

type NPtrStr *string

type NU64 uint64

//json:json
type TI32 int32

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
