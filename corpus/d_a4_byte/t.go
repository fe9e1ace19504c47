package d_a4_byte

//json:json
type D [4]byte
