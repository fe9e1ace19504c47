package r73

import (
	"github.com/google/uuid"
	"time"
)

//json:json
type lower struct {
	Y_z  map[string]*int64 `json:"y_z,omitempty"`
	Zz   [][]TUUID         `json:"0,omitempty"`
	Name map[NStr]NU64     `json:"really_quite_a_long_member_name_of_the_object,omitempty"`
	Code map[string]*NI8   `json:"имя"`
	B    map[NStr]TStr     `json:"value"`
	Mode uint64            `json:"s,omitempty"`
	Obj  *uint8            `json:"@t"`
	Note TBytes            `json:"f7,omitempty"`
	Next []time.Time       `json:"f8"`
}

type NStr string

type NI8 int8

type NU64 uint64

//json:json
type TBytes []byte

//json:json
type TStr string

//json:json
type TUUID uuid.UUID
