package d_uint8

//json:json
type D uint8
