package base

import "fill/n_ext_deep/three/leaf"

type Str int64

type Key string

type X struct {
	Two Str `json:"two,omitempty"`
	leaf.L `json:",inline"`
	K map[string]leaf.V `json:"k"`
}
