package r52

//json:json
type With_Under struct {
	ID   map[string]Sub `json:"f0,omitempty"`
	Idx  *int           `json:"map"`
	Prev []*TI32        `json:"f2"`
	Note *NBool         `json:"note"`
	Val  [4]byte        `json:"x"`
	Code [][]NStr       `json:"list,omitempty"`
	Next map[NStr]bool  `json:"really_quite_a_long_member_name_of_the_object"`
	Meta map[NStr]*Sub  `json:"Title"`
	Rate int            `json:"len,omitempty" default:"1"`
}

type NStr string

type NBool bool

//json:json
type TI32 int32

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
