package d_s_uint32

//json:json
type D []uint32
