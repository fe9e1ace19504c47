package r115

import (
	"time"
)

// json:strict
type T9 struct {
	Zz    [16]NInt           `json:"f0"`
	Port  time.Time          `json:"f1"`
	Flag  []int16            `json:"flag,omitempty"`
	ID    uint               `json:"id" default:"1"`
	K2    map[string]*uint16 `json:"f4,required"`
	Out   []*TI32            `json:"$v"`
	Size  [100]int64         `json:"名,required"`
	Val   map[string]float64 `json:"имя"`
	Next  [][]NU64           `json:"ITEMS,omitempty"`
	Items map[NStr]TStr      `json:"value"`
}

type NStr string

type NInt int

type NU64 uint64

//json:json
type TI32 int32

//json:json
type TStr string
