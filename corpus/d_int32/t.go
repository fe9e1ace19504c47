package d_int32

//json:json
type D int32
