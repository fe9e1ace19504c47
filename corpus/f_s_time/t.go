package f_s_time

import (
	"time"
)

//json:json
type T1 struct {
	A0 int         `json:"a0,omitempty"`
	F  []time.Time `json:"f"`
	Z  string      `json:"z"`
}

//json:json
type T2 struct {
	F []time.Time `json:"f,omitempty"`
	G []time.Time `json:"g"`
	H []time.Time `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F []time.Time `json:"f,required"`
	B bool        `json:"b"`
}
