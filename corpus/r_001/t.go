package r1

//json:json
type LongTypeNameOfTheMessage struct {
	Unit NF32             `json:"f0"`
	Prev map[NStr]*bool   `json:"12"`
	X1   *bool            `json:"really_quite_a_long_member_name_of_the_object,omitempty"`
	A    map[string]*NF64 `json:"a"`
	Val  TStr             `json:"val" default:"x"`
}

type NStr string

type NF32 float32

type NF64 float64

//json:json
type TStr string
