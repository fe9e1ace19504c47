package r94

import (
	"github.com/google/uuid"
)

//json:json
type HTTPReply struct {
	Length [][]Sub         `json:"data-set"`
	Prev   *NStr           `json:"f1,required"`
	Idx    [][]int         `json:"f2,omitempty"`
	Out    map[string]uint `json:"f3"`
	Note   map[NStr]uint32 `json:"id"`
	Path   []*uint32       `json:"s,required"`
	Last   map[NStr]TStr   `json:"Title,omitempty"`
	Tags   [4]byte         `json:"tags"`
	Name   [][]bool        `json:"Y2,omitempty"`
	Next   NPtrI32         `json:"key"`
	K2     [][]NU64        `json:"name,required"`
	Items  []TSliceI       `json:"v"`
	X1     []*NI32         `json:"kind_of,required"`
	Unit   []*int8         `json:"12,omitempty"`
	A      []*int64        `json:"a,omitempty"`
	Host   [][]TBytes      `json:"createdAt"`
	Y_z    uint16          `json:"y_z,required"`
	Zz     []*TUUID        `json:"f17"`
	Port   []*NI32         `json:"port,required"`
	QWERTY []NInt          `json:"$v,omitempty"`
}

type NStr string

type NInt int

type NI32 int32

type NPtrI32 *int32

type NU64 uint64

//json:json
type TBytes []byte

//json:json
type TSliceI []int

//json:json
type TStr string

//json:json
type TUUID uuid.UUID

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
