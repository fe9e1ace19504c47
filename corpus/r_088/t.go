package r88

import (
	"github.com/google/uuid"
)

//json:strict
type LongTypeNameOfTheMessage struct {
	Zz    []*TStr            `json:"v,required"`
	A     *NI8               `json:"a"`
	Val   [100]TI32          `json:"f2"`
	K2    map[NStr]TStr      `json:"_p"`
	Note  [][]int            `json:"a.b"`
	Items []int              `json:"0"`
	URL   []TUUID            `json:"f6,omitempty"`
	Code  []NBool            `json:"имя"`
	B     map[string]float64 `json:"ITEMS,omitempty"`
	Meta  *TI32              `json:"meta,omitempty"`
	Flag  map[string]NI32    `json:"12"`
	Host  map[NStr]*float32  `json:"user:id"`
	Y_z   *NU8               `json:"result"`
}

type NStr string

type NI32 int32

type NU8 uint8

type NBool bool

type NI8 int8

//json:json
type TI32 int32

//json:json
type TStr string

//json:json
type TUUID uuid.UUID
