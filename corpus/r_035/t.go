package r35

import (
	"time"
)

//json:json
type A struct {
	Size  [100]float32      `json:"f0"`
	Übung map[NStr]uint     `json:"err"`
	ID    map[string]int    `json:"f2"`
	Last  TMapS             `json:"f3"`
	A     map[string]TI32   `json:"f4"`
	Items map[string]NBool  `json:"items"`
	Kind  []int32           `json:"name,required"`
	Flag  *Sub              `json:"kind_of"`
	Total [3]uint8          `json:"Y2"`
	First map[string]*int32 `json:"x"`
	Name  map[string]uint8  `json:"a.b,required"`
	Port  map[string]NBool  `json:"f11"`
	Out   map[NStr]NBool    `json:"out"`
	K2    map[string]*NU64  `json:"f13,omitempty"`
	Note  *time.Time        `json:"f14"`
	Tags  TSliceI           `json:"12"`
	Host  []*int            `json:"len,omitempty"`
	Idx   *NI32             `json:"idx"`
	Zz    []*NStr           `json:"f18"`
	URL   [100]NStr         `json:"createdAt"`
}

type NStr string

type NI32 int32

type NBool bool

type NU64 uint64

//json:json
type TSliceI []int

//json:json
type TMapS map[string]Sub

//json:json
type TI32 int32

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
