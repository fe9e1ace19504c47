package mid

import "fill/n_ext_same/two/base"

type M struct {
	base.X `json:",inline"`
	P string `json:"p"`
}
