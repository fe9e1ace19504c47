package d_a3_nf32

//json:json
type D [3]NF32

type NF32 float32
