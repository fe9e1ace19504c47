package d_map_p_float64

//json:json
type D map[string]*float64
