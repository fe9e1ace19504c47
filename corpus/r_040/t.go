package r40

import (
	"time"
)

//json:json
//json:strict
type T9 struct {
	Meta   []TSub2             `json:"Title"`
	K2     []time.Time         `json:"a.b"`
	Kind   *bool               `json:"f2,omitempty" default:"true"`
	Zz     map[string]*Sub     `json:"zz"`
	Length [][]int8            `json:"f4"`
	Flag   [][]uint64          `json:"f5"`
	Mode   map[string]float32  `json:"mode"`
	Val    *uint16             `json:"f7" default:"7"`
	Name   []*NF32             `json:"result,omitempty"`
	Data   [][]TStr            `json:"data,omitempty"`
	Code   []*uint             `json:"$v,omitempty"`
	Rate   NF32                `json:"rate"`
	Last   TArr8               `json:"id,omitempty"`
	Prev   []TSliceI           `json:"имя,omitempty"`
	Port   map[string]*float64 `json:"createdAt,required"`
}

type NF32 float32

//json:json
type TArr8 [8]byte

//json:json
type TSliceI []int

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
