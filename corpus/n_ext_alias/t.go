package ext

import (
	strs "fill/n_ext_alias/go-types"
	"fill/n_ext_alias/api/v2"
	"fill/n_ext_alias/model.v1/model"
)

//json:json
type T1 struct {
	A strs.Name `json:"a"`
	B *strs.Obj `json:"b"`
	C v2.Name   `json:"c"`
	D []v2.Obj  `json:"d"`
	E model.Obj `json:"e"`
	F map[strs.Name]v2.Name `json:"f"`
	G []model.Kind `json:"g"`
	H [2]model.Kind `json:"h"`
	I *model.Kind `json:"i,omitempty"`
}

//json:json
type T2 struct {
	strs.Common `json:",inline"`
	v2.Shared   `json:",inline"`
}

//json:json
type M1 map[strs.Name]model.Kind

//json:json
type N1 model.Kind

//json:json
type N2 v2.Obj
