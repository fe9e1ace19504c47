package d_s_int64

//json:json
type D []int64
