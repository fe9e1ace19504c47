package mid

import bb "fill/n_ext_deep/two/base"

type M struct {
	P string `json:"p"`
	bb.X `json:",inline"`
	Q bb.Str `json:"q"`
	R []bb.Str `json:"r"`
	S map[bb.Key]*bb.Str `json:"s"`
	T Own `json:"t"`
}

type Own bool
