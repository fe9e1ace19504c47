package r84

//json:json
type HTTPReply84 struct {
	Cc   *NF64             `json:"really_quite_a_long_member_name_of_the_object,omitempty"`
	Mode [16]uint          `json:"o,required"`
	Obj  map[string]*bool  `json:"obj,omitempty"`
	Host []NBool           `json:"host"`
	Path map[string]Sub    `json:"Title"`
	Data map[string]string `json:"err"`
	A    []*int32          `json:"ITEMS,omitempty"`
	X1   [][]NInt          `json:"data-set"`
	Kind map[string]uint64 `json:"createdAt"`
	Flag *float32          `json:"flag" default:"3.0"`
}

type NInt int

type NBool bool

type NF64 float64

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
