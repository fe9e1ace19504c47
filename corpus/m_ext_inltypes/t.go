package ext

import "fill/m_ext_inltypes/base"

//json:json
type T1 struct {
	base.Common `json:",inline"`
}
