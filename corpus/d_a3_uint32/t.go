package d_a3_uint32

//json:json
type D [3]uint32
