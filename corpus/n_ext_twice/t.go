package ext

import (
	"fill/n_ext_twice/fill/n_ext_twice/deep"
	"fill/n_ext_twice/lib/fill/n_ext_twice/types"
)

//json:json
type T1 struct {
	A types.Str            `json:"a"`
	B types.Obj            `json:"b"`
	C *types.Num           `json:"c"`
	D []types.Num          `json:"d"`
	E map[string]types.Obj `json:"e"`
	F types.Num            `json:"f,omitempty"`
	G deep.Str             `json:"g"`
	H []deep.Obj           `json:"h"`
}

//json:json
type L1 []types.Num

//json:json
type L2 []types.Obj

//json:json
type T2 struct {
	types.Base `json:",inline"`
	deep.Base2 `json:",inline"`
	Z          int `json:"z"`
}
