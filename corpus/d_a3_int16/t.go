package d_a3_int16

//json:json
type D [3]int16
