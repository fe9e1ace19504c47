package r11

import (
	"github.com/google/uuid"
)

// json:strict
type T struct {
	Code   map[string]*TSub2 `json:"f0,omitempty"`
	Tags   []*TUUID          `json:"f1"`
	Meta   []*TSub2          `json:"12"`
	Prev   [1]int64          `json:"result,omitempty"`
	Cc     map[NStr]NI32     `json:"cc,omitempty"`
	Length *NPtrStr          `json:"length,omitempty" default:"some text"`
	Y_z    []TSliceI         `json:"f6,omitempty"`
	A      map[string]*TStr  `json:"f7"`
	Out    []*float64        `json:"out,omitempty"`
	Data   [][]TSub2         `json:"data,omitempty"`
	B      NU8               `json:"b,omitempty"`
	Idx    NU64              `json:"f11,required"`
	Val    []NInt            `json:"f12,omitempty"`
	QWERTY NI8               `json:"name,omitempty"`
	Obj    NI32              `json:"w" default:"-2147483648"`
}

type NStr string

type NInt int

type NI32 int32

type NU8 uint8

type NPtrStr *string

type NI8 int8

type NU64 uint64

//json:json
type TSliceI []int

//json:json
type TStr string

//json:json
type TUUID uuid.UUID

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
