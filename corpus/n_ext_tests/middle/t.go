package middle

import "fill/n_ext_tests/base"

type Mid struct {
	base.Base `json:",inline"`
	M         int `json:"m"`
}
