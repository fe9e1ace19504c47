package d_a3_uint8

//json:json
type D [3]uint8
