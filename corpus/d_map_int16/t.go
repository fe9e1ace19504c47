package d_map_int16

//json:json
type D map[string]int16
