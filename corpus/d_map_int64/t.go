package d_map_int64

//json:json
type D map[string]int64
