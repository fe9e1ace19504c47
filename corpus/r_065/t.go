package r65

import (
	"github.com/google/uuid"
)

// json: strict
type HTTPReply struct {
	Out   map[string]TI32  `json:"err"`
	Kind  map[string]int16 `json:"0,omitempty"`
	Port  map[NStr]uint32  `json:"f2"`
	Name  uuid.UUID        `json:"f3,omitempty"`
	Obj   map[string]*int  `json:"имя,omitempty"`
	Cc    [2]NI8           `json:"value,omitempty"`
	Prev  [100]int         `json:"f6"`
	X1    []uint           `json:"x1"`
	Idx   int              `json:"idx,omitempty"`
	Unit  []NI8            `json:"unit,omitempty"`
	Flag  *uint16          `json:"12,required"`
	Path  []float64        `json:"name"`
	K2    [][]NI8          `json:"f12"`
	Items map[NStr]string  `json:"f13"`
}

type NStr string

type NI8 int8

//json:json
type TI32 int32
