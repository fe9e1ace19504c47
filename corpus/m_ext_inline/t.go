package ext

import "fill/m_ext_inline/base"

//json:strict
type T1 struct {
	A           int `json:"a"`
	base.Common `json:",inline"`
	Z           string `json:"z"`
}

//json:json
type T2 struct {
	base.Common `json:",inline"`
	base.Extra  `json:"extra"`
}
