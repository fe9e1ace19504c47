package d_map_uint8

//json:json
type D map[string]uint8
