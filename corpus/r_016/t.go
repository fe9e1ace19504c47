package r16

import (
	"time"
)

//json:strict,json
type T struct {
	Mode   [][]TI32       `json:"12,omitempty"`
	Total  *NF64          `json:"_p,omitempty" default:"1e10"`
	QWERTY [][]TTime      `json:"id"`
	Host   [100]int64     `json:"host,omitempty"`
	Size   []NBool        `json:"name,omitempty"`
	Out    [][]TTime      `json:"0"`
	Note   float32        `json:"result"`
	Length map[NStr]int16 `json:"really_quite_a_long_member_name_of_the_object,omitempty"`
	Last   [][]TSub2      `json:"@t,omitempty"`
	B      NU64           `json:"err"`
	Rate   [][]int32      `json:"user:id"`
	Zz     []*NF64        `json:"x,required"`
}

type NStr string

type NBool bool

type NU64 uint64

type NF64 float64

//json:json
type TI32 int32

//json:json
type TTime time.Time

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
