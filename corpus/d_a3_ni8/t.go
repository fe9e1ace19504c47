package d_a3_ni8

//json:json
type D [3]NI8

type NI8 int8
