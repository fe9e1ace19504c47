package r54

import (
	"github.com/google/uuid"
)

//json:json
//json:strict
type HTTPReply54 struct {
	Prev [][]TUUID         `json:"prev,omitempty"`
	Tags []NBool           `json:"w,omitempty"`
	Size map[NStr]*float32 `json:"size"`
	Zz   map[string]NBool  `json:"kind_of,omitempty"`
	Note TBytes            `json:"note,omitempty"`
}

type NStr string

type NBool bool

//json:json
type TBytes []byte

//json:json
type TUUID uuid.UUID
