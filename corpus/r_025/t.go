package r25

//json:strict,json
type T9 struct {
	A     [][]int             `json:"名,required"`
	Note  [][]*float32        `json:"Title"`
	Rate  map[NStr]int32      `json:"rate"`
	Items []*float64          `json:"items,omitempty"`
	Host  []*TBytes           `json:"f4,omitempty"`
	Last  map[string]*float32 `json:"last,omitempty"`
	Name  TSliceI             `json:"f6,omitempty"`
	Port  map[NStr]bool       `json:"s"`
	Übung []*NBool            `json:"übung,omitempty"`
	Out   NInt                `json:"x,omitempty" default:"9223372036854775807"`
	Kind  *int64              `json:"a.b,omitempty" default:"1"`
	Next  map[NStr]int32      `json:"list,omitempty"`
	Flag  map[string]*uint8   `json:"n_1,omitempty"`
}

type NStr string

type NInt int

type NBool bool

//json:json
type TBytes []byte

//json:json
type TSliceI []int
