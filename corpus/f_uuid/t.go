package f_uuid

import (
	"github.com/google/uuid"
)

//json:json
type T1 struct {
	A0 int       `json:"a0,omitempty"`
	F  uuid.UUID `json:"f"`
	Z  string    `json:"z"`
}

//json:json
type T2 struct {
	F uuid.UUID `json:"f,omitempty"`
	G uuid.UUID `json:"g"`
	H uuid.UUID `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F uuid.UUID `json:"f,required"`
	B bool      `json:"b"`
}
