package r80

//json:json
type HTTPReply struct {
	First  map[NStr]int     `json:"first"`
	Host   map[NStr]NStr    `json:"host"`
	B      map[NStr]*int    `json:"b"`
	Name   []TSliceI        `json:"w"`
	A      map[string]*NInt `json:"user:id,omitempty"`
	Length [4]byte          `json:"f5"`
	QWERTY []*NStr          `json:"s,required"`
	Übung  [][]*int8        `json:"key"`
	Val    *NStr            `json:"createdAt,required"`
}

type NStr string

type NInt int

//json:json
type TSliceI []int
