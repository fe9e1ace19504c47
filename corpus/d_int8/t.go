package d_int8

//json:json
type D int8
