package d_map_int32

//json:json
type D map[string]int32
