package r93

import (
	"time"
)

//json:strict
type HTTPReply93 struct {
	Unit  []uint16     `json:"unit"`
	URL   [2]time.Time `json:"s,omitempty"`
	Items []*NBool     `json:"f2,omitempty"`
	Cc    uint16       `json:"cc"`
	Prev  [100]TSliceI `json:"f4"`
	Val   []NF32       `json:"f5,required"`
	Flag  [][]TTime    `json:"$v,omitempty"`
	Zz    []*uint16    `json:"v,omitempty"`
	ID    *uint8       `json:"x"`
	X1    NStr         `json:"Y2" default:"a=b"`
	Last  []*TTime     `json:"f10,omitempty"`
	Rate  [][]uint8    `json:"user:id,omitempty"`
	Path  Sub          `json:"f12,omitempty"`
	Size  []*NF64      `json:"f13,required"`
	Code  [100]int64   `json:"code,omitempty"`
	Meta  []time.Time  `json:"value,omitempty"`
}

type NStr string

type NF32 float32

type NBool bool

type NF64 float64

//json:json
type TSliceI []int

//json:json
type TTime time.Time

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
