package t

import (
	"fill/n_ext_deep/mid"
	bb "fill/n_ext_deep/one/base"
)

//json:json
type T struct {
	A string `json:"a"`
	B bb.Str `json:"b"`
	mid.M `json:",inline"`
	C *bb.Str `json:"c,omitempty"`
}
