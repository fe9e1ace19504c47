package d_s_float64

//json:json
type D []float64
