package ext

import al "fill/m_ext_inlalias/base"

//json:json
type T1 struct {
	al.Common `json:",inline"`
	A int `json:"a"`
}
