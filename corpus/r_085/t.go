package r85

// Msg is documented.
//
//json:json
type Msg struct {
	X1     []*bool           `json:"type"`
	Mode   []string          `json:"f1,omitempty"`
	QWERTY map[NStr]*NStr    `json:"qwerty,omitempty"`
	Val    map[string]*TSub2 `json:"f3,omitempty"`
	Note   *NF64             `json:"data-set,required"`
	Tags   map[string]*NInt  `json:"12,omitempty"`
	Idx    []NBool           `json:"list"`
}

type NStr string

type NInt int

type NBool bool

type NF64 float64

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
