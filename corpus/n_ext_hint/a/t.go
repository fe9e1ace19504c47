package a

import "fill/n_ext_hint/y/b"

type Outer struct {
	A       int `json:"a"`
	b.Inner `json:",inline"`
}
