package d_a3_uint16

//json:json
type D [3]uint16
