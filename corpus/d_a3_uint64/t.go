package d_a3_uint64

//json:json
type D [3]uint64
