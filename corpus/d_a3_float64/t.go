package d_a3_float64

//json:json
type D [3]float64
