package r44

import (
	"github.com/google/uuid"
)

//json:strict,json
type T9 struct {
	Meta  [2]NStr         `json:"meta,omitempty"`
	Total *bool           `json:"err"`
	X1    map[string]TI32 `json:"$v,required"`
	Size  map[NStr]*Sub   `json:"size,omitempty"`
	Prev  [][]uint64      `json:"f4"`
	Name  [][]TBytes      `json:"v,omitempty"`
	Y_z   map[string]NU8  `json:"data-set"`
	Host  [][]NI8         `json:"createdAt"`
	ID    [][]TSliceI     `json:"f8"`
	Val   TMapS           `json:"w,omitempty"`
	Port  []*TUUID        `json:"f10"`
	Items []TUUID         `json:"value"`
	B     map[NStr]uint32 `json:"b,required"`
	Cc    []bool          `json:"f13"`
}

type NStr string

type NU8 uint8

type NI8 int8

//json:json
type TBytes []byte

//json:json
type TSliceI []int

//json:json
type TMapS map[string]Sub

//json:json
type TI32 int32

//json:json
type TUUID uuid.UUID

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
