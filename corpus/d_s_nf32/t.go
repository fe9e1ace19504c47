package d_s_nf32

//json:json
type D []NF32

type NF32 float32
