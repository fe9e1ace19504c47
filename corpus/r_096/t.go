package r96

// T96 is documented.
//
//json:json
type T96 struct {
	Rate map[NStr]NI32      `json:"f0"`
	X1   []int32            `json:"f1"`
	B    map[NStr]Sub       `json:"$v,required"`
	Host [][]*float32       `json:"Y2"`
	Last [16]float32        `json:"key"`
	Code map[string]*string `json:"code,omitempty"`
	Zz   []string           `json:"ITEMS,omitempty"`
	Unit map[string]Sub     `json:"f7"`
	A    map[NStr]uint64    `json:"data-set,omitempty"`
	Meta int64              `json:"名"`
	URL  uint16             `json:"f10"`
	K2   []*float32         `json:"k2,omitempty"`
}

type NStr string

type NI32 int32

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
