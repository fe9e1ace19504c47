package a

import "fill/n_ext_chain/b"

type Outer struct {
	A       int `json:"a"`
	b.Inner `json:",inline"`
	C       string `json:"c,omitempty"`
}
