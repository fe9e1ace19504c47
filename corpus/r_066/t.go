package r66

import (
	"github.com/google/uuid"
)

//json:json
type LongTypeNameOfTheMessage66 struct {
	Flag []TUUID `json:"n_1,omitempty"`
	Out  uint8   `json:"value" default:"200"`
	Code NI8     `json:"a.b,required"`
}

type NI8 int8

//json:json
type TUUID uuid.UUID
