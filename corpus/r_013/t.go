package r13

import (
	"time"
)

//json:json
//json:strict
type Msg struct {
	Out    []*TSub2           `json:"out,required"`
	Total  [2]time.Time       `json:"total,required"`
	Length NInt               `json:"a.b,omitempty"`
	B      [100]TStr          `json:"n_1,omitempty"`
	A      [1]time.Time       `json:"key"`
	Meta   map[NStr]uint32    `json:"f5"`
	Mode   [][]*int           `json:"f6"`
	Path   map[string]*uint16 `json:"list,omitempty"`
	Host   map[NStr]string    `json:"o,required"`
}

type NStr string

type NInt int

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
