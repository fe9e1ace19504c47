package r21

//json:strict,json
type T21 struct {
	Last   map[NStr]float64 `json:"last,required"`
	Out    []*uint64        `json:"12,omitempty"`
	Path   map[string]NInt  `json:"@t,omitempty"`
	QWERTY *NF32            `json:"f3"`
	Mode   [2]string        `json:"x"`
	Cc     map[NStr]Sub     `json:"n_1,omitempty"`
}

type NStr string

type NInt int

type NF32 float32

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
