package d_s_nf64

//json:json
type D []NF64

type NF64 float64
