package r71

import (
	"github.com/google/uuid"
	"time"
)

//json:json
type Msg struct {
	Tags   *NI8            `json:"tags"`
	Zz     Sub             `json:"value"`
	Path   []*float32      `json:"kind_of,omitempty"`
	B      map[string]int  `json:"f3"`
	Note   [3]bool         `json:"f4,required"`
	Length []time.Time     `json:"Title,omitempty"`
	A      []*TUUID        `json:"w"`
	Total  map[NStr]uint32 `json:"f7,omitempty"`
	URL    *NU8            `json:"f8" default:"255"`
	Data   map[string]Sub  `json:"f9"`
	Val    *NStr           `json:"val" default:"%d"`
}

type NStr string

type NU8 uint8

type NI8 int8

//json:json
type TUUID uuid.UUID

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
