package r99

// Msg99 is documented.
//
//json:json
type Msg99 struct {
	Idx    []*Sub            `json:"имя"`
	QWERTY Sub               `json:"a.b"`
	Last   map[string]uint   `json:"last"`
	Path   int8              `json:"名,omitempty" default:"-128"`
	Tags   []*Sub            `json:"tags,omitempty"`
	Port   map[string]int16  `json:"Y2,required"`
	Prev   map[NStr]NU64     `json:"type"`
	Items  *NI32             `json:"items,omitempty"`
	Flag   *uint32           `json:"0" default:"1"`
	Kind   map[string]*NBool `json:"$v,omitempty"`
	URL    map[string]NI8    `json:"f10,required"`
	X1     [1]NI32           `json:"Title"`
	Rate   map[NStr]float64  `json:"rate"`
}

type NStr string

type NI32 int32

type NBool bool

type NI8 int8

type NU64 uint64

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
