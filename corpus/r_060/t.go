package r60

// json:strict
type Msg60 struct {
	Out    [3]uint32 `json:"out"`
	Note   []float32 `json:"0"`
	URL    []*TStr   `json:"url"`
	Last   []TI32    `json:"Title,required"`
	A      []*NI32   `json:"map"`
	Port   [16]uint  `json:"port,omitempty"`
	Rate   *uint     `json:"f6,omitempty" default:"18446744073709551615"`
	Length *NU8      `json:"user:id,omitempty"`
	Übung  [][]NStr  `json:"übung"`
	Data   [][]*int  `json:"a.b"`
}

type NStr string

type NI32 int32

type NU8 uint8

//json:json
type TI32 int32

//json:json
type TStr string
