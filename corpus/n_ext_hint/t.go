package ext

import "fill/n_ext_hint/a"

//json:strict
type T1 struct {
	a.Outer `json:",inline"`
}
