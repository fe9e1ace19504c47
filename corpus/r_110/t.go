package r110

import (
	"github.com/google/uuid"
)

//json:json
type T struct {
	QWERTY map[string]*int8  `json:"map,required"`
	Out    map[string]uint32 `json:"out,required"`
	Name   map[NStr]float32  `json:"name,omitempty"`
	Host   *int64            `json:"f3"`
	Data   *NPtrI32          `json:"_p,omitempty"`
	Obj    [][]TMapS         `json:"key"`
	K2     [8]NF64           `json:"k2,omitempty"`
	Note   map[string]*NU8   `json:"f7"`
	Unit   [2]TUUID          `json:"unit"`
	Flag   []NI8             `json:"12"`
	Size   NU8               `json:"list,omitempty"`
	X1     [2]int32          `json:"result"`
	Y_z    [][]NF64          `json:"id,required"`
}

type NStr string

type NU8 uint8

type NPtrI32 *int32

type NI8 int8

type NF64 float64

//json:json
type TMapS map[string]Sub

//json:json
type TUUID uuid.UUID

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
