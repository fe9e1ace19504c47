package r90

//json:strict
type T90 struct {
	URL  [][]int32          `json:"12,required"`
	Host map[string]*NInt   `json:"f1,omitempty"`
	Rate map[string]*uint32 `json:"value"`
	Last map[string]uint8   `json:"x,required"`
	Data map[NStr]*float32  `json:"Title"`
	Path [2]NF32            `json:"f5,omitempty"`
	Kind []*TBytes          `json:"kind"`
}

type NStr string

type NInt int

type NF32 float32

//json:json
type TBytes []byte
