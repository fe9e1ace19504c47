package r12

// json: strict
type Msg12 struct {
	Obj    map[string]int16  `json:"obj,required"`
	Host   map[NStr]*float32 `json:"user:id"`
	First  [][]NStr          `json:"12,required"`
	Tags   []NI8             `json:"tags,omitempty"`
	A      [8]string         `json:"a"`
	Length []*uint           `json:"v"`
	Size   []*int16          `json:"f6"`
	Flag   []int             `json:"flag,required"`
	Total  Sub               `json:"f8"`
	Cc     map[string]NU64   `json:"f9"`
	Name   map[string]*NF32  `json:"n_1"`
	Note   uint64            `json:"type"`
	Last   NU64              `json:"f12,omitempty"`
	Mode   map[string]uint32 `json:"w"`
	Path   NU64              `json:"path"`
	Val    map[NStr]*int8    `json:"f15,required"`
}

type NStr string

type NF32 float32

type NI8 int8

type NU64 uint64

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
