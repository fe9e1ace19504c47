package d_map_float32

//json:json
type D map[string]float32
