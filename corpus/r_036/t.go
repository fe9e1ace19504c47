package r36

import (
	"time"
)

// json: strict
type T36 struct {
	ID     [][]TI32           `json:"name"`
	A      []*NU8             `json:"a"`
	Flag   map[NStr]uint      `json:"flag"`
	Rate   NPtrStr            `json:"rate,omitempty"`
	Prev   map[NStr]NI32      `json:"s"`
	Mode   [16]TSliceI        `json:"$v,omitempty"`
	Last   []*int64           `json:"f6,omitempty"`
	Length map[string]*uint64 `json:"@t,required"`
	Host   time.Time          `json:"type" layout:"15:04:05"`
	Out    []*uint8           `json:"a.b,omitempty"`
	Total  []*string          `json:"f10,omitempty"`
}

type NStr string

type NI32 int32

type NU8 uint8

type NPtrStr *string

//json:json
type TSliceI []int

//json:json
type TI32 int32
