package f_a3_time

import (
	"time"
)

//json:json
type T1 struct {
	A0 int          `json:"a0,omitempty"`
	F  [3]time.Time `json:"f"`
	Z  string       `json:"z"`
}

//json:json
type T2 struct {
	F [3]time.Time `json:"f,omitempty"`
	G [3]time.Time `json:"g"`
	H [3]time.Time `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [3]time.Time `json:"f,required"`
	B bool         `json:"b"`
}
