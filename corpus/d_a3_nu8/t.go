package d_a3_nu8

//json:json
type D [3]NU8

type NU8 uint8
