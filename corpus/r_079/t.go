package r79

//json:strict,json
type T struct {
	Prev   []*NF32          `json:"s"`
	QWERTY map[string]NBool `json:"qwerty"`
	Name   [100]NI32        `json:"имя,omitempty"`
	Size   map[NStr]TI32    `json:"@t,omitempty"`
	Last   TI32             `json:"last,omitempty"`
}

type NStr string

type NI32 int32

type NF32 float32

type NBool bool

//json:json
type TI32 int32
