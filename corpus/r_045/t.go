package r45

import (
	"github.com/google/uuid"
)

// json: strict
type T45 struct {
	Last   [][]*int      `json:"really_quite_a_long_member_name_of_the_object"`
	Flag   *Sub          `json:"v"`
	Tags   [3]NInt       `json:"id"`
	Rate   *int16        `json:"f3,omitempty" default:"0"`
	Übung  map[NStr]int8 `json:"名"`
	Mode   *uuid.UUID    `json:"user:id"`
	URL    [][]*Sub      `json:"type"`
	Kind   [][]uint      `json:"kind"`
	QWERTY *NU8          `json:"Y2"`
}

type NStr string

type NInt int

type NU8 uint8

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
