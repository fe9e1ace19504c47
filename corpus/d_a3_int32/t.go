package d_a3_int32

//json:json
type D [3]int32
