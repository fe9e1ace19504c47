package r51

//json:json
type T951 struct {
	Tags  []*NBool          `json:"tags"`
	Total uint              `json:"f1"`
	Mode  string            `json:"mode,omitempty"`
	Idx   [][]NU8           `json:"w,omitempty"`
	A     [1]NInt           `json:"f4,omitempty"`
	Out   map[string]*int32 `json:"Title,required"`
	Note  []*NU8            `json:"f6"`
	Port  int16             `json:"result,omitempty" default:"-32768"`
}

type NInt int

type NU8 uint8

type NBool bool
