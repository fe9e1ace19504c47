package d_a3_nf64

//json:json
type D [3]NF64

type NF64 float64
