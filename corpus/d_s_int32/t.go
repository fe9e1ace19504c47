package d_s_int32

//json:json
type D []int32
