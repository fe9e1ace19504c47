package d_s_uint16

//json:json
type D []uint16
