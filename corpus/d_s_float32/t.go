package d_s_float32

//json:json
type D []float32
