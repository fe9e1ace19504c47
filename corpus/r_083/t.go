package r83

import (
	"github.com/google/uuid"
	"time"
)

// Msg is documented.
//
//json:json
type Msg struct {
	Kind  [8]TUUID         `json:"Y2"`
	ID    []*uint16        `json:"f1"`
	Zz    NU64             `json:"result" default:"200"`
	Size  []*int32         `json:"size,omitempty"`
	Val   map[string]*NF64 `json:"f4"`
	Cc    *float32         `json:"f5"`
	Host  []*TSub2         `json:"host,omitempty"`
	Unit  [][]time.Time    `json:"f7,omitempty"`
	Out   [][]uint16       `json:"f8,omitempty"`
	Übung map[NStr]Sub     `json:"a.b,required"`
	Idx   []*TSub2         `json:"idx,omitempty"`
	X1    int16            `json:"id,omitempty"`
	Mode  [8]TI32          `json:"Title,omitempty"`
	Next  map[NStr]int8    `json:"f13"`
	Data  [][]*int         `json:"key"`
	Obj   [4]byte          `json:"x"`
}

type NStr string

type NU64 uint64

type NF64 float64

//json:json
type TI32 int32

//json:json
type TUUID uuid.UUID

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
