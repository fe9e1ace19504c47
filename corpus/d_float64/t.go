package d_float64

//json:json
type D float64
