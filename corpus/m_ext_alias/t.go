package ext

import (
	one "fill/m_ext_alias/a/types"
	two "fill/m_ext_alias/b/types"
)

//json:json
type T1 struct {
	A one.Str   `json:"a"`
	B two.Str   `json:"b"`
	C one.Obj   `json:"c"`
	D two.Obj   `json:"d"`
	E *one.Obj  `json:"e"`
	F []two.Obj `json:"f"`
}

//json:json
type T2 struct {
	A map[string]one.Obj `json:"a"`
	B []two.Str `json:"b"`
	C *two.Str  `json:"c"`
	D one.Str   `json:"d,omitempty"`
	E two.Str   `json:"e,omitempty"`
}

//json:json
type L1 []one.Str

//json:json
type L2 []two.Str

//json:json
type L3 []two.Obj
