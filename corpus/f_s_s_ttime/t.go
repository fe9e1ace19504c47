package f_s_s_ttime

import (
	"time"
)

//json:json
type T1 struct {
	A0 int       `json:"a0,omitempty"`
	F  [][]TTime `json:"f"`
	Z  string    `json:"z"`
}

//json:json
type T2 struct {
	F [][]TTime `json:"f,omitempty"`
	G [][]TTime `json:"g"`
	H [][]TTime `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F [][]TTime `json:"f,required"`
	B bool      `json:"b"`
}

//json:json
type TTime time.Time
