package r106

import (
	"time"
)

// lower is documented.
//
//json:json
type lower struct {
	B      map[string]int    `json:"b,omitempty"`
	Name   [][]*int8         `json:"f1"`
	Total  map[string]*uint8 `json:"f2"`
	Mode   [][]TBytes        `json:"_p,required"`
	Obj    map[string]*bool  `json:"f4"`
	Code   [2]int16          `json:"code"`
	K2     []uint            `json:"really_quite_a_long_member_name_of_the_object"`
	Length []byte            `json:"s"`
	X1     NU8               `json:"n_1"`
	URL    []*TI32           `json:"url,required"`
	Flag   [][]*Sub          `json:"result,omitempty"`
	Host   [8]int64          `json:"user:id"`
	Items  []*TTime          `json:"ITEMS"`
	Kind   uint16            `json:"f13"`
	Übung  []uint64          `json:"übung,omitempty"`
	Last   map[NStr]*int     `json:"last"`
}

type NStr string

type NU8 uint8

//json:json
type TBytes []byte

//json:json
type TI32 int32

//json:json
type TTime time.Time

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
