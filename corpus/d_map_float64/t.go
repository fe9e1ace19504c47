package d_map_float64

//json:json
type D map[string]float64
