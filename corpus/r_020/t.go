package r20

// Msg is documented.
//
//json:json
type Msg struct {
	Val  TSliceS       `json:"val"`
	Data map[NStr]TStr `json:"name,omitempty"`
	Name [3]TStr       `json:"createdAt,omitempty"`
	Note []*string     `json:"map"`
	Host []float64     `json:"host"`
}

type NStr string

//json:json
type TSliceS []Sub

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
