package d_float32

//json:json
type D float32
