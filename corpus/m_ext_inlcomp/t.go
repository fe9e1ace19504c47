package ext

import "fill/m_ext_inlcomp/base"

//json:json
type T1 struct {
	base.Common `json:",inline"`
}
