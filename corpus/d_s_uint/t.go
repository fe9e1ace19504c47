package d_s_uint

//json:json
type D []uint
