package r41

import (
	"github.com/google/uuid"
)

// T is documented.
//
//json:json
type T struct {
	Size  []*NI32    `json:"list,omitempty"`
	Out   [][]NU64   `json:"out,omitempty"`
	A     [][]*NStr  `json:"f2,required"`
	Cc    [2]uint64  `json:"_p,required"`
	Idx   [][]*int   `json:"$v,required"`
	URL   *float64   `json:"data-set,omitempty"`
	Übung bool       `json:"x,required"`
	Y_z   *NU64      `json:"y_z"`
	Mode  []*Sub     `json:"f8"`
	K2    []NI32     `json:"type,omitempty"`
	B     []*TI32    `json:"b,omitempty"`
	Unit  *uuid.UUID `json:"f11"`
	Rate  [100]NF32  `json:"user:id"`
}

type NStr string

type NI32 int32

type NF32 float32

type NU64 uint64

//json:json
type TI32 int32

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
