package r15

//json:strict,json
type LongTypeNameOfTheMessage15 struct {
	A     *int16           `json:"a" default:"1"`
	Data  int16            `json:"f1"`
	Idx   map[NStr]NF32    `json:"key"`
	First []*int8          `json:"list"`
	Port  map[NStr]int     `json:"port39"`
	Path  map[NStr]float64 `json:"f5,omitempty"`
	ID    bool             `json:"0,omitempty"`
}

type NStr string

type NF32 float32
