package r6

import (
	"time"
)

// T96 is documented.
//
//json:json
type T96 struct {
	URL    [][]*string         `json:"really_quite_a_long_member_name_of_the_object"`
	A      map[string]*float32 `json:"user:id,required"`
	First  *Sub                `json:"type"`
	Path   []*int              `json:"f3,required"`
	Kind   map[string]uint     `json:"f4,omitempty"`
	Items  uint16              `json:"имя,required"`
	Idx    TArr8               `json:"f6,omitempty"`
	K2     float32             `json:"Y2,omitempty"`
	Name   []*float64          `json:"f8,required"`
	Next   [][]TStr            `json:"f9"`
	Cc     []*int16            `json:"cc,required"`
	Obj    map[string]NI8      `json:"obj24"`
	Note   []TSub2             `json:"o,omitempty"`
	Rate   []uint64            `json:"result,omitempty"`
	Y_z    [][]int64           `json:"key,required"`
	Zz     map[string]*string  `json:"w"`
	Data   []*uint             `json:"data,required"`
	Tags   []*TTime            `json:"id"`
	B      []float32           `json:"b,omitempty"`
	Size   map[string]*uint32  `json:"a.b"`
	QWERTY map[NStr]NI8        `json:"n_1"`
	Code   TArr8               `json:"ITEMS,omitempty"`
	Last   map[string]*NF64    `json:"f22,omitempty"`
	Meta   map[NStr]*bool      `json:"f23"`
}

type NStr string

type NI8 int8

type NF64 float64

//json:json
type TArr8 [8]byte

//json:json
type TStr string

//json:json
type TTime time.Time

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
