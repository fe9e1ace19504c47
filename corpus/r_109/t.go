package r109

import (
	"github.com/google/uuid"
)

// json:strict
type A struct {
	Total  map[string]*NI8 `json:"0,omitempty"`
	ID     []NI8           `json:"createdAt,omitempty"`
	Meta   [][]TUUID       `json:"f2,omitempty"`
	Unit   []NU8           `json:"Y2,omitempty"`
	Code   map[NStr]int8   `json:"key,required"`
	Length [][]int16       `json:"f5,required"`
	Rate   map[string]TStr `json:"f6"`
	Cc     []*NStr         `json:"cc,required"`
	Kind   []int           `json:"id,omitempty"`
}

type NStr string

type NU8 uint8

type NI8 int8

//json:json
type TStr string

//json:json
type TUUID uuid.UUID
