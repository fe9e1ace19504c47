package r76

//json:strict,json
type A struct {
	Kind   map[NStr]NBool   `json:"f0"`
	Flag   map[NStr]float64 `json:"kind_of"`
	Out    map[NStr]uint64  `json:"result,omitempty"`
	Total  []float64        `json:"Y2"`
	QWERTY map[string]int64 `json:"v"`
	A      map[NStr]TSub2   `json:"a,omitempty"`
	Path   map[NStr]*int    `json:"path,required"`
	Items  *TI32            `json:"0"`
	Val    TSliceS          `json:"user:id"`
	Next   Sub              `json:"f9,required"`
	Note   map[string]Sub   `json:"createdAt"`
	B      []*uint          `json:"name,omitempty"`
}

type NStr string

type NBool bool

//json:json
type TSliceS []Sub

//json:json
type TI32 int32

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
