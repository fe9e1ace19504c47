package r10

import (
	"github.com/google/uuid"
)

//json:json
//json:strict
type Öffnung struct {
	Cc    map[string]*string `json:"n_1,omitempty"`
	A     map[string]*TI32   `json:"名,omitempty"`
	Flag  []*NBool           `json:"flag"`
	Unit  [][]uint8          `json:"really_quite_a_long_member_name_of_the_object"`
	Obj   bool               `json:"f4"`
	Last  map[NStr]int       `json:"w"`
	Note  [][]NBool          `json:"note,omitempty"`
	Y_z   [][]float64        `json:"y_z,required"`
	Total map[string]*NU64   `json:"a.b"`
	Rate  map[NStr]*NStr     `json:"rate"`
	First []NU8              `json:"id"`
	Übung [][]float64        `json:"f11,omitempty"`
	Val   []TI32             `json:"f12"`
	Meta  map[string]*NI8    `json:"meta,omitempty"`
	Idx   [][]uint64         `json:"x,omitempty"`
	Items []NF64             `json:"f15,omitempty"`
	Zz    *float64           `json:"Title,omitempty"`
	Name  NStr               `json:"name"`
	Host  [1]uint            `json:"f18"`
	Mode  []*TUUID           `json:"$v"`
	Kind  map[string]*NF64   `json:"map"`
	Out   map[string]float32 `json:"user:id"`
	Path  [][]NF64           `json:"data-set,omitempty"`
	Data  []*NU8             `json:"@t,omitempty"`
}

type NStr string

type NU8 uint8

type NBool bool

type NI8 int8

type NU64 uint64

type NF64 float64

//json:json
type TI32 int32

//json:json
type TUUID uuid.UUID
