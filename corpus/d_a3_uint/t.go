package d_a3_uint

//json:json
type D [3]uint
