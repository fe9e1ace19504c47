package r86

import (
	"time"
)

//json:json
type Msg struct {
	Code [][]time.Time `json:"f0,required"`
}
