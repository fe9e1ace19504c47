package d_s_int

//json:json
type D []int
