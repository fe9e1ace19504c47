package r75

//json:json
type Öffnung75 struct {
	Next *int8            `json:"0,required"`
	Note []int8           `json:"f1"`
	Rate NU64             `json:"f2"`
	Host map[string]*uint `json:"host"`
	Kind map[NStr]*Sub    `json:"name,omitempty"`
	Path []*int           `json:"f5"`
	X1   [3]int8          `json:"f6,omitempty"`
	Size map[string]*TStr `json:"$v"`
	Data NBool            `json:"data"`
	Y_z  TBytes           `json:"kind_of,omitempty"`
	ID   [][]int16        `json:"f10"`
	Port [100]NInt        `json:"port,omitempty"`
	K2   []*uint16        `json:"err"`
	Obj  *NF64            `json:"obj"`
	Idx  *NI8             `json:"_p"`
}

type NStr string

type NInt int

type NBool bool

type NI8 int8

type NU64 uint64

type NF64 float64

//json:json
type TBytes []byte

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
