package ext

import (
	"time"

	"fill/n_ext_clock/clock"
	"fill/n_ext_clock/ids"

	"github.com/google/uuid"
)

//json:json
type T1 struct {
	A clock.Time            `json:"a"`
	B *clock.Time           `json:"b"`
	C []clock.Time          `json:"c"`
	D map[string]clock.Time `json:"d"`
	E clock.Time            `json:"e,omitempty"`
	F []*clock.Time         `json:"f"`
}

//json:strict
type T2 struct {
	A clock.UUID  `json:"a"`
	B ids.UUID    `json:"b"`
	C *ids.UUID   `json:"c"`
	D []ids.UUID  `json:"d"`
	E ids.UUID    `json:"e,omitempty"`
	F uuid.UUID   `json:"f"`
	G *uuid.UUID  `json:"g"`
	H []uuid.UUID `json:"h"`
}

//json:json
type T3 struct {
	A ids.Time            `json:"a"`
	B *ids.Time           `json:"b"`
	C []ids.Time          `json:"c"`
	D map[string]ids.Time `json:"d"`
	E ids.Time            `json:"e,omitempty"`
	F time.Time           `json:"f"`
	G *time.Time          `json:"g,omitempty"`
	H []time.Time         `json:"h"`
}

//json:json
type T4 clock.Time

//json:json
type T5 ids.UUID

//json:json
type T6 ids.Time

//json:json
type T7 []clock.Time

//json:json
type T8 map[string]ids.UUID

//json:json
type T9 struct {
	ids.Base `json:",inline"`
	X int `json:"x"`
}

//json:json
type Time struct {
	S int `json:"s"`
}

//json:json
type UUID int

//json:json
type T10 struct {
	A Time `json:"a"`
	B UUID `json:"b"`
	C []Time `json:"c"`
	D []UUID `json:"d"`
	E *Time `json:"e"`
	F *UUID `json:"f,omitempty"`
}
