package r69

import (
	"time"
)

//json:strict,json
type HTTPReply69 struct {
	X1   []*NI32   `json:"f0"`
	Host time.Time `json:"type,omitempty" layout:"15:04:05"`
}

type NI32 int32
