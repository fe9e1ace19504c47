package r70

//json:json
//json:strict
type With_Under struct {
	Out   map[string]*Sub `json:"out,omitempty"`
	Items [2]NF32         `json:"type,required"`
	Total map[NStr]TStr   `json:"total,omitempty"`
	Obj   NMapI           `json:"len,omitempty"`
}

type NStr string

type NF32 float32

type NMapI map[string]int

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
