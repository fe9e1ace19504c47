package r59

// json: strict
type With_Under struct {
	URL   map[string]*Sub `json:"f0"`
	Übung [][]bool        `json:"f1,required"`
	B     *NInt           `json:"b,omitempty"`
	Port  [100]uint8      `json:"f3,omitempty"`
	First []*NU8          `json:"first,omitempty"`
	Data  int64           `json:"createdAt,required"`
	Meta  [][]int         `json:"type"`
	Cc    NU64            `json:"имя,omitempty"`
}

type NInt int

type NU8 uint8

type NU64 uint64

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
