package r77

import (
	"github.com/google/uuid"
)

//json:strict,json
type HTTPReply struct {
	Rate  []TSliceI         `json:"имя"`
	Y_z   map[string]*int16 `json:"err,omitempty"`
	Val   uint32            `json:"user:id,required"`
	A     [][]Sub           `json:"f3"`
	Code  []*TUUID          `json:"@t,omitempty"`
	Prev  [1]NU64           `json:"type,omitempty"`
	Kind  map[string]int8   `json:"value,omitempty"`
	Items []*bool           `json:"list"`
	ID    []*int16          `json:"f8,required"`
}

type NU64 uint64

//json:json
type TSliceI []int

//json:json
type TUUID uuid.UUID

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
