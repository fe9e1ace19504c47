package ext

import (
	"fill/n_ext_tests/base"
	"fill/n_ext_tests/middle"
)

//json:strict
type T1 struct {
	middle.Mid `json:",inline"`
	N          int `json:"n"`
}

//json:json
type T2 struct {
	base.Base `json:",inline"`
	K base.Kind `json:"k,omitempty"`
	L []base.Kind `json:"l"`
}
