package d_map_int8

//json:json
type D map[string]int8
