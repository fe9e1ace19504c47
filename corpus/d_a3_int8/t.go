package d_a3_int8

//json:json
type D [3]int8
