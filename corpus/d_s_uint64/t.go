package d_s_uint64

//json:json
type D []uint64
