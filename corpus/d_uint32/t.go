package d_uint32

//json:json
type D uint32
