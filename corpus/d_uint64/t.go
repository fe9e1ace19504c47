package d_uint64

//json:json
type D uint64
