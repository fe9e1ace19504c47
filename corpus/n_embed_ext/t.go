package embedext

import (
	"fill/n_embed_ext/base"
	"time"
)

//json:json
type A struct {
	base.Obj
	X int `json:"x"`
}

//json:json
type B struct {
	base.Obj `json:"obj"`
	X        int `json:"x"`
}

//json:json
type C struct {
	base.Obj `json:"obj,omitempty"`
	base.Num `json:"num,omitempty"`
	base.Flo `json:"flo"`
	base.Flg `json:"flg,omitempty"`
	X        int `json:"x"`
}

//json:strict
type D struct {
	base.Obj `json:"obj,required"`
	base.Txt `json:"txt,required"`
	base.Lst `json:"lst"`
	T        time.Time `json:"t"`
}
