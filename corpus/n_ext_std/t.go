package std

import (
	"fill/n_ext_std/lib/time"
	"fill/n_ext_std/lib/uuid"
)

//json:json
type T struct {
	A time.Time `json:"a"`
	B *time.Time `json:"b"`
	C []time.Time `json:"c"`
	D uuid.UUID `json:"d"`
	E *uuid.UUID `json:"e,omitempty"`
	F map[string]uuid.UUID `json:"f"`
}

//json:json
type U []time.Time

//json:json
type V time.Time

//json:json
type W uuid.UUID
