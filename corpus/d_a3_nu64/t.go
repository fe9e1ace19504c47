package d_a3_nu64

//json:json
type D [3]NU64

type NU64 uint64
