package r33

import (
	"time"
)

// json: strict
type LongTypeNameOfTheMessage33 struct {
	Data   []NU64             `json:"data"`
	Note   map[string]int64   `json:"note,omitempty"`
	Zz     map[string]NI8     `json:"zz"`
	Unit   map[string]*NF32   `json:"12"`
	Name   map[NStr]TSub2     `json:"result"`
	Code   *uint32            `json:"f5,required"`
	Mode   map[NStr]int64     `json:"f6"`
	Path   uint32             `json:"type,required"`
	ID     *uint8             `json:"f8"`
	Cc     int                `json:"f9"`
	Length [][]NInt           `json:"length"`
	A      map[string]float64 `json:"s,required"`
	Val    map[NStr]NF64      `json:"val,omitempty"`
	Übung  [1]NI32            `json:"übung"`
	Kind   uint8              `json:"f14" default:"0"`
	Y_z    [][]time.Time      `json:"f15"`
	URL    [][]NU64           `json:"map"`
	Obj    []*bool            `json:"f17,required"`
	Idx    map[string]*int    `json:"0"`
	Meta   NI8                `json:"really_quite_a_long_member_name_of_the_object"`
	Host   []TStr             `json:"data-set"`
	Prev   [][]string         `json:"prev,required"`
	Next   map[string]NBool   `json:"$v,required"`
	Size   [][]TBytes         `json:"Y2,omitempty"`
}

type NStr string

type NInt int

type NI32 int32

type NF32 float32

type NBool bool

type NI8 int8

type NU64 uint64

type NF64 float64

//json:json
type TBytes []byte

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
