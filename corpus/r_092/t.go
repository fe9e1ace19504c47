package r92

import (
	"time"
)

//json:json
type Öffnung struct {
	Meta   time.Time        `json:"meta,omitempty"`
	Obj    TMapI            `json:"f1,omitempty"`
	Code   [4]byte          `json:"12"`
	Port   *string          `json:"kind_of"`
	Data   [4]byte          `json:"f4,omitempty"`
	Length map[NStr]TStr    `json:"length,omitempty"`
	Next   []*NF64          `json:"next,required"`
	ID     [8]uint64        `json:"id"`
	Val    map[NStr]TStr    `json:"o"`
	Übung  []*NF64          `json:"f9,required"`
	X1     []*Sub           `json:"list"`
	Prev   map[string]*int8 `json:"user:id"`
	Flag   [][]TMapI        `json:"flag"`
	Total  TSliceI          `json:"total,required"`
}

type NStr string

type NF64 float64

//json:json
type TSliceI []int

//json:json
type TMapI map[string]int

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
