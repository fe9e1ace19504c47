package r14

import (
	"github.com/google/uuid"
)

//json:json
//json:strict
type Öffnung struct {
	Meta []TUUID           `json:"f0"`
	Val  NMapI             `json:"err,required"`
	Kind map[string]*TSub2 `json:"result,required"`
	Last [3]NU64           `json:"len"`
}

type NU64 uint64

type NMapI map[string]int

//json:json
type TUUID uuid.UUID

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
