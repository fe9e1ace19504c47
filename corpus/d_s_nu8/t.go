package d_s_nu8

//json:json
type D []NU8

type NU8 uint8
