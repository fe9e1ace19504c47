package mid

import "fill/n_ext_hint2/two/base"

type M struct {
	base.X `json:",inline"`
	P string `json:"p"`
}
