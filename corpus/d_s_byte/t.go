package d_s_byte

//json:json
type D []byte
