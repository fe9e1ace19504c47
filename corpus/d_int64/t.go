package d_int64

//json:json
type D int64
