package r105

import (
	"github.com/google/uuid"
	"time"
)

//json:json
type LongTypeNameOfTheMessage105 struct {
	Port   [1]NF64            `json:"port"`
	Path   []float64          `json:"f1"`
	Data   []time.Time        `json:"f2"`
	Übung  map[NStr]NI32      `json:"createdAt"`
	Zz     map[NStr]string    `json:"f4,omitempty"`
	Prev   map[string]*Sub    `json:"f5,omitempty"`
	Meta   []NI8              `json:"f6,required"`
	URL    [][]int64          `json:"url,omitempty"`
	Length [][]uint8          `json:"kind_of,omitempty"`
	ID     []*TSub2           `json:"s,required"`
	Out    map[string]int64   `json:"f10,omitempty"`
	Last   map[string]*uint64 `json:"f11,omitempty"`
	Idx    [][]TMapS          `json:"w,omitempty"`
	Code   [16]TSliceI        `json:"f13,omitempty"`
	Obj    [][]NBool          `json:"err,omitempty"`
	X1     [16]NI32           `json:"f15,omitempty"`
	Size   []uint64           `json:"f16,omitempty"`
	A      []*TUUID           `json:"a"`
	Cc     []*TSub2           `json:"cc"`
	Kind   map[string]NInt    `json:"_p"`
	Name   NPtrStr            `json:"x"`
	Rate   []TSliceI          `json:"rate,required"`
	Unit   map[NStr]TSub2     `json:"o"`
	Y_z    [1]NI8             `json:"f23,omitempty"`
}

type NStr string

type NInt int

type NI32 int32

type NBool bool

type NPtrStr *string

type NI8 int8

type NF64 float64

//json:json
type TSliceI []int

//json:json
type TMapS map[string]Sub

//json:json
type TUUID uuid.UUID

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
