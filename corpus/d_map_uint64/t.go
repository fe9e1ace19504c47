package d_map_uint64

//json:json
type D map[string]uint64
