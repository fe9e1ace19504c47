package options

import (
	"time"

	"github.com/google/uuid"
)

//json:json
type Sub struct {
	X int `json:"x"`
}

type Flat struct {
	Y int     `json:"y,string,omitempty"`
	Z *string `json:"z,omitempty,string"`
}

//json:json
type T1 struct {
	A int            `json:"a,string,omitempty"`
	B string         `json:"b,required,omitempty"`
	C []int          `json:"c,omitempty,required"`
	D map[string]int `json:"d,string,required"`
	E *Sub           `json:"e,foo,bar,omitempty"`
	F time.Time      `json:"f,required,omitempty"`
	G uuid.UUID      `json:"g,string,required"`
	H bool           `json:"h,,omitempty"`
	I float64        `json:"i,omitempty,omitempty"`
	J []byte         `json:"j,string,omitempty"`
	K Sub            `json:"k,string,omitempty"`
	L uint8          `json:"l,string,omitempty" default:"7"`
	M *bool          `json:"m,string,omitempty"`
	Flat             `json:",string,inline"`
}

//json:strict
type T2 struct {
	A int    `json:"omitempty"`
	B string `json:"required"`
	C bool   `json:"inline"`
	D uint   `json:"omit,omitempty"`
	E *int   `json:"req,required"`
	F *int   `json:"default"`
	G int    `json:"string,string"`
	H int    `json:"layout" default:"3"`
}
