package d_map_uint32

//json:json
type D map[string]uint32
