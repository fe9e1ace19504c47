package d_map_uint

//json:json
type D map[string]uint
