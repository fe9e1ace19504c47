package r5

import (
	"github.com/google/uuid"
)

//json:json
type A struct {
	Port   map[string]int32 `json:"f0"`
	Mode   [][]*NStr        `json:"f1,required"`
	ID     [1]uint8         `json:"f2"`
	Meta   []TUUID          `json:"f3,omitempty"`
	Y_z    [][]*NStr        `json:"y_z"`
	QWERTY [][]Sub          `json:"map"`
	Code   map[NStr]NBool   `json:"f6"`
	Prev   NInt             `json:"f7"`
	URL    *NBool           `json:"a.b"`
}

type NStr string

type NInt int

type NBool bool

//json:json
type TUUID uuid.UUID

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
