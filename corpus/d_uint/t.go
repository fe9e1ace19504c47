package d_uint

//json:json
type D uint
