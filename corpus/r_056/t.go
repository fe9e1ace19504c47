package r56

import (
	"github.com/google/uuid"
)

// lower is documented.
//
//json:json
type lower struct {
	A      map[string]float32 `json:"12"`
	Code   map[NStr]int       `json:"f1,required"`
	QWERTY int8               `json:"createdAt,omitempty"`
	Out    []*string          `json:"out"`
	Total  uint64             `json:"kind_of"`
	Data   []TUUID            `json:"w"`
	Name   []*float64         `json:"name,omitempty"`
	Items  []*TStr            `json:"_p,required"`
	Flag   NF32               `json:"a.b" default:"-1"`
	X1     map[string]NF32    `json:"x1,required"`
	Kind   *NF64              `json:"o,required"`
	Next   map[string]int     `json:"id,omitempty"`
	URL    map[string]NF64    `json:"url,omitempty"`
	Meta   map[string]*TStr   `json:"meta24,omitempty"`
	First  *string            `json:"first,required"`
	Zz     []int64            `json:"@t,required"`
	Last   *NI8               `json:"user:id" default:"-1"`
	Obj    *NI8               `json:"0"`
	Size   map[string]NU64    `json:"f18"`
	Path   *uint16            `json:"Y2,omitempty"`
}

type NStr string

type NF32 float32

type NI8 int8

type NU64 uint64

type NF64 float64

//json:json
type TStr string

//json:json
type TUUID uuid.UUID
