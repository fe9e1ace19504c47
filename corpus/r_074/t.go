package r74

import (
	"time"
)

//json:json
//json:strict
type A struct {
	Y_z    [3]NU8          `json:"type"`
	Total  [8]NU8          `json:"s,omitempty"`
	Code   [][]NU8         `json:"f2,omitempty"`
	Length *NF32           `json:"length35,required"`
	Übung  []NI8           `json:"f4,omitempty"`
	Zz     map[NStr]int    `json:"f5"`
	Data   map[NStr]uint32 `json:"value"`
	Host   [4]byte         `json:"имя,omitempty"`
	B      []*uint8        `json:"f8,required"`
	Obj    *NU8            `json:"Title"`
	Next   map[NStr]NI32   `json:"really_quite_a_long_member_name_of_the_object"`
	Tags   []*NU64         `json:"$v,omitempty"`
	Port   map[NStr]*bool  `json:"0,omitempty"`
	Name   []*TSub2        `json:"list"`
	First  map[string]NF64 `json:"f14"`
	Prev   []*TTime        `json:"user:id"`
	A      uint            `json:"err"`
}

type NStr string

type NI32 int32

type NU8 uint8

type NF32 float32

type NI8 int8

type NU64 uint64

type NF64 float64

//json:json
type TTime time.Time

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
