package r8

//json:json
type Öffnung struct {
	Host map[NStr]*NStr     `json:"f0"`
	Zz   *string            `json:"zz" default:"it's"`
	Path map[NStr]NStr      `json:"名,required"`
	B    map[string]*uint16 `json:"0,omitempty"`
	Next []*bool            `json:"really_quite_a_long_member_name_of_the_object,omitempty"`
	X1   [][]NF64           `json:"name,omitempty"`
	Val  map[NStr]*bool     `json:"12,required"`
	Name NF32               `json:"createdAt,omitempty" default:"0.1"`
}

type NStr string

type NF32 float32

type NF64 float64
