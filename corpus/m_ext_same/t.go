package ext

import "fill/m_ext_same/b/types"

//json:json
type T1 struct {
	types.Common `json:",inline"`
	A types.Str `json:"a"`
}
