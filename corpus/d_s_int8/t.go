package d_s_int8

//json:json
type D []int8
