package f_s_s_tuuid

import (
	"github.com/google/uuid"
)

//json:json
type T1 struct {
	A0 int       `json:"a0,omitempty"`
	F  [][]TUUID `json:"f"`
	Z  string    `json:"z"`
}

//json:json
type T2 struct {
	F [][]TUUID `json:"f,omitempty"`
	G [][]TUUID `json:"g"`
	H [][]TUUID `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [][]TUUID `json:"f,required"`
	B bool      `json:"b"`
}

//json:json
type TUUID uuid.UUID
