package r3

// LongTypeNameOfTheMessage3 is documented.
//
//json:json
type LongTypeNameOfTheMessage3 struct {
	Path int32               `json:"a.b,omitempty"`
	Name *NPtrI32            `json:"name,omitempty"`
	K2   map[string]*float32 `json:"k2,omitempty"`
	Tags [2]uint16           `json:"len,required"`
	Data map[string]float32  `json:"f4,omitempty"`
	A    NF32                `json:"a"`
	B    [][]NI32            `json:"f6,omitempty"`
	Idx  map[NStr]*string    `json:"idx,required"`
}

type NStr string

type NI32 int32

type NF32 float32

type NPtrI32 *int32
