package r101

//json:strict,json
type A struct {
	Zz     map[string]uint16 `json:"f0"`
	Mode   map[string]NI8    `json:"kind_of"`
	QWERTY [][]TMapS         `json:"f2,omitempty"`
	Total  map[NStr]uint64   `json:"v"`
	Flag   []*NBool          `json:"имя"`
	Meta   map[string]uint   `json:"f5"`
	X1     [][]uint64        `json:"12"`
	First  map[NStr]NU64     `json:"f7,omitempty"`
	Y_z    map[NStr]string   `json:"x,omitempty"`
	Length [100]NI32         `json:"名,omitempty"`
	Kind   map[NStr]NI32     `json:"key,omitempty"`
	Übung  NPtrStr           `json:"n_1,omitempty"`
	A      map[string]*TStr  `json:"f12"`
	Next   []int8            `json:"createdAt"`
	Rate   bool              `json:"rate"`
	URL    map[NStr]uint     `json:"Title"`
	Obj    map[NStr]NU8      `json:"user:id,required"`
	Host   map[string]*int16 `json:"f17"`
	Tags   map[string]NU8    `json:"f18"`
	Data   map[string]int32  `json:"data,required"`
	B      NU8               `json:"f20"`
	Code   [100]NU64         `json:"f21,required"`
	Idx    map[string]*Sub   `json:"f22,required"`
	Name   []*Sub            `json:"name"`
}

type NStr string

type NI32 int32

type NU8 uint8

type NBool bool

type NPtrStr *string

type NI8 int8

type NU64 uint64

//json:json
type TMapS map[string]Sub

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
