package d_uint16

//json:json
type D uint16
