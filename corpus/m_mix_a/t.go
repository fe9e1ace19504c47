package mix

import (
	"time"

	"github.com/google/uuid"
)

//json:json
type Sub struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//json:json
type T1 struct {
	U  uuid.UUID         `json:"u"`
	T  time.Time         `json:"t"`
	B  []byte            `json:"b"`
	U2 uuid.UUID         `json:"u2"`
	T2 time.Time         `json:"t2" layout:"2006-01-02"`
	S  string            `json:"s"`
	M  map[string]string `json:"m"`
	M2 map[string]*Sub   `json:"m2"`
	L  []Sub             `json:"l"`
}

//json:strict
type T2 struct {
	L  []*Sub         `json:"l,omitempty"`
	A  [2]string      `json:"a"`
	L2 [][]int        `json:"l2,omitempty"`
	P  *Sub           `json:"p,omitempty"`
	Q  Sub            `json:"q"`
	R  *string        `json:"r,omitempty"`
	M  map[string]Sub `json:"m,omitempty"`
	N  *float32       `json:"n"`
	I  int8           `json:"i" default:"-5"`
}

//json:json
type T3 struct {
	PT *time.Time  `json:"pt,omitempty"`
	PU *uuid.UUID  `json:"pu,omitempty"`
	LT []time.Time `json:"lt"`
	M  map[string]int `json:"m"`
	M3 map[string]bool `json:"m3,omitempty"`
	X  bool `json:"x,omitempty"`
	Y  *bool `json:"y,omitempty"`
	Z  bool `json:"z"`
}
