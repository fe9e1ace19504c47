package d_s_uint8

//json:json
type D []uint8
