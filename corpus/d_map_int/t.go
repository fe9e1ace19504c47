package d_map_int

//json:json
type D map[string]int
