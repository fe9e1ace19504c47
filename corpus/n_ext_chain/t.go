package ext

import "fill/n_ext_chain/a"

//json:strict
type T1 struct {
	a.Outer `json:",inline"`
	Z       int `json:"z"`
}

//json:json
type T2 struct {
	Q       string `json:"q"`
	a.Outer `json:",inline"`
}
