package r7

import (
	"time"
)

//json:strict,json
type HTTPReply struct {
	Übung *uint           `json:"len" default:"18446744073709551615"`
	ID    map[string]NStr `json:"f1"`
	Cc    map[NStr]uint16 `json:"Y2,omitempty"`
	X1    TBytes          `json:"ITEMS,omitempty"`
	Note  [2]TSliceI      `json:"kind_of,required"`
	URL   map[NStr]NI8    `json:"url"`
	Zz    uint64          `json:"Title"`
	Host  [][]int16       `json:"data-set,omitempty"`
	Path  []*TBytes       `json:"path"`
	First []*TTime        `json:"first"`
	Y_z   NF32            `json:"y_z,omitempty"`
}

type NStr string

type NF32 float32

type NI8 int8

//json:json
type TBytes []byte

//json:json
type TSliceI []int

//json:json
type TTime time.Time
