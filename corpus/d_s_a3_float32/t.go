package d_s_a3_float32

//json:json
type D [][3]float32
