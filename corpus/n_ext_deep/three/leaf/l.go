package leaf

import (
	b "fill/n_ext_deep/one/base"
)

type V string

type L struct {
	V V `json:"v"`
	LB *b.Str `json:"lb"`
}
