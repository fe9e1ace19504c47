package r91

// json:strict
type Öffnung struct {
	Length []*NBool       `json:"f0,omitempty"`
	Mode   map[NStr]uint8 `json:"f1,omitempty"`
	Note   [][]*float32   `json:"f2"`
}

type NStr string

type NBool bool
