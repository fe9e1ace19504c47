package d_s_int16

//json:json
type D []int16
