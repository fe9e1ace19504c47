package r81

import (
	"time"
)

// json:strict
type Öffnung81 struct {
	Kind   uint64        `json:"v,omitempty"`
	B      [8]uint       `json:"$v,required"`
	A      [][]time.Time `json:"f2"`
	Idx    [][]int       `json:"list,required"`
	Data   NPtrI32       `json:"data"`
	Total  []byte        `json:"f5"`
	Val    []NU64        `json:"f6,required"`
	Meta   []TSub2       `json:"_p,required"`
	Flag   uint64        `json:"name,required"`
	QWERTY []time.Time   `json:"err,required"`
	Length []time.Time   `json:"length,required"`
	Code   []*NF32       `json:"createdAt"`
	Size   [][]int16     `json:"size"`
	Y_z    []NF64        `json:"f13,omitempty"`
	URL    []*TStr       `json:"data-set,omitempty"`
	Out    *int16        `json:"w"`
	Items  []uint        `json:"Title"`
}

type NF32 float32

type NPtrI32 *int32

type NU64 uint64

type NF64 float64

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
