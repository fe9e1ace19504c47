package r78

import (
	"time"
)

//json:json
//json:strict
type T78 struct {
	X1   [][]*int         `json:"result,required"`
	Prev *int             `json:"f1,required"`
	Last []*TTime         `json:"f2,required"`
	Meta map[string]uint8 `json:"w"`
	Val  []*NU64          `json:"val"`
	Note map[NStr]Sub     `json:"v,required"`
	Mode []*NU64          `json:"@t"`
}

type NStr string

type NU64 uint64

//json:json
type TTime time.Time

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
