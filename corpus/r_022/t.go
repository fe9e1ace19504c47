package r22

import (
	"github.com/google/uuid"
)

//json:strict
type HTTPReply struct {
	QWERTY map[string]*NF64 `json:"name"`
	Y_z    []int8           `json:"f1"`
	Val    *uint16          `json:"key" default:"65535"`
	Mode   *uint            `json:"mode,omitempty"`
	Port   []*TUUID         `json:"map"`
}

type NF64 float64

//json:json
type TUUID uuid.UUID
