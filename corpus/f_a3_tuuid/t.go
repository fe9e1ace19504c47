package f_a3_tuuid

import (
	"github.com/google/uuid"
)

//json:json
type T1 struct {
	A0 int      `json:"a0,omitempty"`
	F  [3]TUUID `json:"f"`
	Z  string   `json:"z"`
}

//json:json
type T2 struct {
	F [3]TUUID `json:"f,omitempty"`
	G [3]TUUID `json:"g"`
	H [3]TUUID `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]TUUID `json:"f,required"`
	B bool     `json:"b"`
}

//json:json
type TUUID uuid.UUID
