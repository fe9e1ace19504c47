package r112

import (
	"time"
)

//json:strict
type Öffnung struct {
	Flag   map[string]*TSub2 `json:"flag,omitempty"`
	Data   []NF32            `json:"o,omitempty"`
	Note   map[NStr]NBool    `json:"name,omitempty"`
	Val    map[string]*NU64  `json:"val,omitempty"`
	Out    []*float32        `json:"s"`
	Length map[string]*NInt  `json:"f5,omitempty"`
	K2     map[NStr]NInt     `json:"map"`
	A      NI8               `json:"x,required"`
	Zz     Sub               `json:"len,omitempty"`
	Code   *NPtrStr          `json:"f9"`
	First  *NF64             `json:"12"`
	X1     time.Time         `json:"err,omitempty" layout:"2006/01"`
	Kind   TSliceI           `json:"f12"`
	Mode   []NU8             `json:"value,omitempty"`
	Unit   []*NI8            `json:"f14,omitempty"`
	Size   []*NF64           `json:"list,required"`
}

type NStr string

type NInt int

type NU8 uint8

type NF32 float32

type NBool bool

type NPtrStr *string

type NI8 int8

type NU64 uint64

type NF64 float64

//json:json
type TSliceI []int

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
