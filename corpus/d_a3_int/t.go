package d_a3_int

//json:json
type D [3]int
