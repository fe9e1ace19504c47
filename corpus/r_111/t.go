package r111

// json:strict
type T9111 struct {
	Rate   []*float32       `json:"really_quite_a_long_member_name_of_the_object,omitempty"`
	Next   []*NI8           `json:"next,required"`
	Zz     map[NStr]int     `json:"zz,omitempty"`
	QWERTY map[string]*TStr `json:"@t,omitempty"`
	Prev   [][]NU8          `json:"prev,omitempty"`
	Val    []uint           `json:"f5,omitempty"`
	Note   [][]int8         `json:"Title,required"`
}

type NStr string

type NU8 uint8

type NI8 int8

//json:json
type TStr string
