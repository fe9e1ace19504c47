package d_map_uint16

//json:json
type D map[string]uint16
