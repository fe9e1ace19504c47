package d_s_nu64

//json:json
type D []NU64

type NU64 uint64
