package r32

//json:json
type HTTPReply struct {
	K2  [][]float64     `json:"user:id,required"`
	Val *TI32           `json:"really_quite_a_long_member_name_of_the_object,required"`
	X1  map[string]NU64 `json:"type"`
}

type NU64 uint64

//json:json
type TI32 int32
