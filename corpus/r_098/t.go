package r98

import (
	"time"
)

//json:strict
type A struct {
	Unit  *string           `json:"f0" default:"0"`
	Mode  uint32            `json:"err"`
	First bool              `json:"Title"`
	Flag  *time.Time        `json:"v,required"`
	Path  map[string]uint16 `json:"имя"`
	Next  map[string]NI32   `json:"@t"`
	Items map[string]Sub    `json:"items"`
	X1    []*float64        `json:"x1,required"`
	Note  map[string]uint16 `json:"map"`
	Out   [4]byte           `json:"f9,omitempty"`
	URL   [][]int8          `json:"f10,omitempty"`
	Y_z   [][]TTime         `json:"y_z,omitempty"`
}

type NI32 int32

//json:json
type TTime time.Time

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
