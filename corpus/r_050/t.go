package r50

// json: strict
type Msg struct {
	Obj    []TStr          `json:"o,required"`
	Note   []bool          `json:"f1"`
	Unit   []NF64          `json:"type,required"`
	URL    [3]uint32       `json:"f3"`
	Idx    NI8             `json:"имя"`
	Mode   TArr8           `json:"mode"`
	First  []float64       `json:"first,required"`
	Port   map[NStr]string `json:"f7"`
	Items  [][]NF64        `json:"v,omitempty"`
	Prev   []*int16        `json:"createdAt,omitempty"`
	Data   map[string]*Sub `json:"f10"`
	Length []*uint         `json:"length,omitempty"`
	Last   map[NStr]TStr   `json:"data-set,required"`
	Kind   [100]NU64       `json:"f13,omitempty"`
	Rate   map[string]TStr `json:"n_1,omitempty"`
	Code   map[string]NF64 `json:"a.b,omitempty"`
}

type NStr string

type NI8 int8

type NU64 uint64

type NF64 float64

//json:json
type TArr8 [8]byte

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
