package r64

import (
	"time"
)

// T9 is documented.
//
//json:json
type T9 struct {
	Y_z    map[NStr]NU64      `json:"y_z,omitempty"`
	B      [][]NI32           `json:"名,required"`
	Total  [1]time.Time       `json:"total,omitempty"`
	Note   *TI32              `json:"имя"`
	A      NF32               `json:"f4"`
	Rate   map[string]uint16  `json:"list"`
	Name   *float32           `json:"f6,omitempty"`
	K2     [16]int16          `json:"f7,omitempty"`
	Obj    [][]int16          `json:"obj,required"`
	Out    map[string]*uint16 `json:"out,omitempty"`
	Übung  *NBool             `json:"kind_of" default:"false"`
	Zz     []*uint8           `json:"key,required"`
	QWERTY *float32           `json:"f12,required"`
	X1     [3]uint8           `json:"f13"`
	Path   []Sub              `json:"f14,required"`
	Flag   [16]uint           `json:"f15"`
}

type NStr string

type NI32 int32

type NF32 float32

type NBool bool

type NU64 uint64

//json:json
type TI32 int32

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
