package d_a3_int64

//json:json
type D [3]int64
